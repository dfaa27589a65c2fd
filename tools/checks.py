from vf import H

CHECKS = {}
T = ("thorough",)
Q = ("quick",)

CHECKS["C01"] = dict(harnesses=[
    H("step", "crc.c", "every 32-bit state, 1 and 2 bytes", defs=dict(STEP=1), unwind=260),
    H("split", "crc.c", "every buffer of 8 bytes, every initial value, every split point", defs=dict(L=8), unwind=30, solver="z3", tiers=Q),
    H("str", "crc.c", "every string of up to 8 characters", defs=dict(L=8, STR=1), unwind=30, solver="z3", tiers=Q),
    H("split64", "crc.c", "every buffer of 64 bytes, every initial value, every split point", defs=dict(L=64), unwind=70, solver="z3", tiers=T, timeout=3000),
    H("str40", "crc.c", "every string of up to 40 characters", defs=dict(L=40, STR=1), unwind=50, solver="z3", tiers=T, timeout=3000),
    H("published", "ids.c", "all 17 published ids (constants)", defs=dict(TABLE=1), unwind=60, solver="z3"),
])
CHECKS["C02"] = dict(harnesses=[
    H("forward", "ids.c", "every part id", defs=dict(TABLE=1), unwind=60, solver="z3"),
    H("reverse3", "ids.c", "tables of 3 arbitrary parts, every queried id", unwind=70, solver="z3", defs=dict(NPARTS=3, SYMSLOTS="{0,1,2}")),
    H("reverse32", "ids.c", "tables of 32 parts, slots 0, 17 and 31 arbitrary, every queried id", unwind=70, solver="z3", defs=dict(SYMSLOTS="{0,17,31}")),
])
CHECKS["C03"] = dict(harnesses=[
    H("add6", "meta_add.c", "every packed table of 0..6 entries, every id, reference and 16-bit size", unwind=70, defs=dict(FIRST=0, LAST=6)),
    H("add32", "meta_add.c", "every packed table of 29..32 entries (29 leading sizes fixed), every id, reference and 16-bit size", unwind=70, defs=dict(FIRST=29, LAST=32)),
    H("add", "meta_add.c", "every packed table of 0..32 entries, every id, reference and 16-bit size", unwind=70, tiers=T, timeout=3000),
    H("get", "meta_get.c", "every 4096-byte header, every id and reference", unwind=70),
])
CHECKS["C04"] = dict(harnesses=[
    H("n3", "meta_del.c", "3 entries, first deleted, later sizes from {0,1,8,9,16,21}", unwind=70, defs=dict(N=3, K=0, S0=8)),
    H("n3k1", "meta_del.c", "3 entries, second deleted, its and the later size from {0,1,8,9,16,21}", unwind=70, defs=dict(N=3, K=1, S0=21)),
    H("n3k2", "meta_del.c", "3 entries, last deleted, sizes from {0,1,8,9,16,21}", unwind=70, defs=dict(N=3, K=2, S0=1), tiers=T)] + [
    H("n3s%d" % x, "meta_del.c", "3 entries, first of size %d deleted, later sizes from {0,1,8,9,16,21}" % x, unwind=70, defs=dict(N=3, K=0, S0=x), tiers=T, timeout=3000) for x in (0, 1, 9, 16, 21)] + [
    H("full0", "meta_del.c", "32 entries, first deleted", unwind=70, defs=dict(N=32, K=0, FULL=1), tiers=T, timeout=3000),
    H("full31", "meta_del.c", "32 entries, last deleted", unwind=70, defs=dict(N=32, K=31, FULL=1), tiers=T, timeout=3000),
    H("full", "meta_del.c", "32 entries, entry 30 deleted", unwind=70, defs=dict(N=32, K=30, FULL=1)),
])
CHECKS["C05"] = dict(harnesses=[H("valid", "hdr_valid.c", "every 4096-byte header", unwind=70)])
CHECKS["C06"] = dict(harnesses=[
    H("addget6", "parts.c", "every compact table of 0..6 distinct parts, every id", unwind=70, defs=dict(FIRST=0, LAST=6)),
    H("addget32", "parts.c", "every compact table of 29..32 distinct parts (29 leading ids fixed), every id", unwind=70, defs=dict(FIRST=29, LAST=32)),
    H("addget", "parts.c", "every compact table of 0..32 distinct parts, every id", unwind=70, tiers=T, timeout=3000),
    H("del5", "parts.c", "every compact table of 1..5 distinct parts, every deleted slot", unwind=70, defs=dict(DEL=1, LAST=5, FIRST=0, KSET="{0,1,2,3,4}")),
    H("del32", "parts.c", "every compact table of 29..32 parts; deleted slot from {0,29,31}", unwind=70, defs=dict(DEL=1, FIRST=29, LAST=32, KSET="{0,29,31}")),
    H("delall", "parts.c", "every compact table of 1..32 distinct parts; every deleted slot", unwind=70, defs=dict(DEL=1), tiers=T, timeout=3000),
])
CHECKS["C07"] = dict(harnesses=[
    H("sizes5", "sizes.c", "every table of 0..5 distinct parts, sizes below 2^56", unwind=70, defs=dict(FIRST=0, LAST=5)),
    H("sizes32", "sizes.c", "tables of 30..32 distinct parts (30 leading ones fixed), sizes below 2^56", unwind=70, defs=dict(FIRST=30, LAST=32)),
    H("sizes10", "sizes.c", "every table of 0..10 distinct parts, sizes below 2^56", unwind=70, defs=dict(FIRST=0, LAST=10), tiers=T, timeout=3000),
])
CHECKS["C08"] = dict(harnesses=[
    H("header", "hdr_hash.c", "every 4096-byte header, every output buffer size up to 64", unwind=600),
    H("faults", "hdr_hash.c", "every header, hash function failing at any one call", unwind=600, defs=dict(FAULTS=1)),
])
CH8 = dict(BPAK_CHUNK_BUFFER_LENGTH=8)
CHECKS["C09"] = dict(harnesses=[
    H("hash", "payload_hash.c", "0..3 parts of 0..19 stored bytes, any flags, chunk buffer 8", unwind=70, lo=4, ladder=(9, 34), defs=CH8),
    H("faults", "payload_hash.c", "0..2 parts of 0..19 stored bytes, one failing hash call and one failing read of three kinds", unwind=70, lo=4, ladder=(9, 34), defs=dict(CH8, FAULTS=1, NP=2)),
    H("decide", "payload_hash.c", "0..2 parts of 0..19 stored bytes, every stored digest", unwind=70, lo=4, ladder=(9, 34), defs=dict(CH8, DECIDE=1, NP=2)),
])
CHECKS["C11"] = dict(harnesses=[
    H("geometry", "merkle_geo.c", "every 64-bit input length, tree offset below 2^62, salt length up to 255", unwind=70, lo=6, ladder=(12,34)),
    H("clear", "merkle_geo.c", "inputs of 1, 2, 128 and 129 blocks, every byte of the tree", unwind=600, lo=140, ladder=(400,), defs=dict(ZFILL=1)),
])
CHECKS["C12"] = dict(harnesses=[
    H("one", "merkle_build.c", "1 block, cut at 1 and 4095", unwind=140, defs=dict(NB=1, CUT1=1, CUT2=4095))] + [
    H("two%d" % k, "merkle_build.c", "2 blocks, cut at 4097 and 4098, hash operation %d watched" % k, unwind=140, defs=dict(NB=2, CUT1=4097, CUT2=4098, WOP=k)) for k in (0, 1, 2)] + [
    H("l2_%d" % k, "merkle_build.c", "129 blocks, hash operation %d watched at one position" % k, unwind=140, defs=dict(NB=129, WOP=k, WPOS=w), tiers=Q + T if k in (130, 131) else T) for k, w in ((128, 40), (129, "32 + 127 * 32 + 5"), (130, "32 + 5"), (131, "32 + 32 + 6"))] + [
    H("l2w_%d" % k, "merkle_build.c", "129 blocks, hash operation %d watched" % k, unwind=140, defs=dict(NB=129, WOP=k), tiers=T, timeout=3000) for k in (128, 129, 130, 131)] + [
    H("three2", "merkle_build.c", "3 blocks, a long chunk behind cuts at 1 and 2, hash operation 2 watched", unwind=140, defs=dict(NB=3, CUT1=1, CUT2=2, WOP=2)),
    H("faults", "merkle_build.c", "2 blocks, one failing hash call, one failing read or write of three kinds", unwind=140, defs=dict(NB=2, FAULTS=1, **{"MH_FWIN(c)": "((c) <= 8 || (c) == 60 || (c) >= 130)"})),
])
CHECKS["C13"] = dict(harnesses=[
    H("one", "merkle_verify.c", "1 block, everything symbolic", unwind=200, defs=dict(NB=1))] + [
    H("two%d" % k, "merkle_verify.c", "2 blocks, everything symbolic, hash operation %d watched" % k, unwind=200, defs=dict(NB=2, WOP=k)) for k in (0, 1, 2)] + [
    H("faults", "merkle_verify.c", "2 blocks, one failing hash call, one failing read of three kinds", unwind=200, defs=dict(NB=2, FAULTS=1, **{"MH_FWIN(c)": "((c) <= 8 || (c) == 60 || (c) >= 130)"})),
])
CHECKS["C10"] = dict(harnesses=[
    H("plain%d_%d" % (n, k), "pkg_verify.c", "one part of %d bytes, file possibly short, every signature, size, digest, backend answer" % n, unwind=600, lo=66, ladder=(140, 600), stubs=("file",), defs=dict(CH8, LEN=n, KIND=k) if k else dict(CH8, LEN=n), tiers=Q + T if k else T) for n, k in ((9, 3), (0, 0), (9, 0), (16, 0))] + [
    H("tree%d" % k, "pkg_verify.c", "three parts, the second of 9 bytes with %s; every root, salt, stored tree" % d, unwind=600, lo=66, ladder=(140, 600), stubs=("file",), defs=dict(CH8, TREE=k, KIND=1)) for k, d in ((7, "root, salt and tree there"), (6, "no root"), (5, "no salt"), (3, "no tree"))] + [
    H("faults", "pkg_verify.c", "one part of 9 bytes, one failing file call", unwind=600, lo=66, ladder=(140, 600), stubs=("file",), defs=dict(CH8, IOFAULTS=1, LEN=9, KIND=2)),
])
CHECKS["C29"] = dict(harnesses=[
    H("sign%d" % k, "pkg_sig.c", "hash kind %d, every header field, old and new signature up to 512 bytes, backend failures" % k, unwind=600, lo=66, ladder=(140, 600), stubs=("file",), defs=dict(CH8, KIND=k, NOWATCH=1), tiers=Q + T if k == 2 else T) for k in (1, 2, 3)] + [
    H("signf", "pkg_sig.c", "one failing file call while signing", unwind=600, lo=66, ladder=(140, 600), stubs=("file",), defs=dict(CH8, KIND=1, NOWATCH=1, IOFAULTS=1)),
    H("raw", "pkg_sig.c", "every signature of 0..520 bytes, one failing file call", unwind=600, lo=66, ladder=(140, 600), stubs=("file",), defs=dict(CH8, KIND=1, RAW=1, IOFAULTS=1)),
])
CHECKS["C44"] = dict(harnesses=[
    H("digest", "part_digest.c", "2 parts of 0..19 bytes, every id asked for, file possibly short, buffers of 0..64 bytes", unwind=70, lo=5, ladder=(9, 21, 66), stubs=("file",), defs=dict(CH8, NP=2)),
    H("faults", "part_digest.c", "2 parts, one failing hash call and one failing file call", unwind=70, lo=5, ladder=(9, 21, 66), stubs=("file",), defs=dict(CH8, NP=2, FAULTS=1, IOFAULTS=1)),
    H("digest3", "part_digest.c", "3 parts of 0..19 bytes, every id asked for, file possibly short, buffers of 0..64 bytes", unwind=70, lo=5, ladder=(9, 21, 66), stubs=("file",), defs=dict(CH8, NP=3), tiers=T, timeout=3000),
])
CH512 = dict(BPAK_CHUNK_BUFFER_LENGTH=512)
AD = dict(unwind=4200, lo=4, ladder=(34, 66, 140, 600), stubs=("file", "random"))
CHECKS["C23"] = dict(harnesses=[
    H("size%d" % n, "pkg_add.c", "a file of %d bytes added to %d parts, every flag" % (n, p), defs=dict(CH512, SIZE=n, KIND=k, NPARTS=p, FINALOP=0), tiers=t, **AD) for n, k, p, t in ((0, 1, 1, Q + T), (511, 2, 2, Q + T), (1024, 3, 1, Q + T), (1300, 3, 2, Q + T), (1, 3, 1, T), (512, 3, 2, T), (513, 1, 2, T))] + [
    H("coded%d" % n, "pkg_add.c", "a file of %d bytes added behind an encoded and %d other parts" % (n, p - 1), defs=dict(CH512, SIZE=n, KIND=1, NPARTS=p, FINALOP=0, TR=100), hint="size%d" % n, tiers=t, **AD) for n, p, t in ((514, 1, Q + T), (1300, 2, T))] + [
    H("nofile%d" % n, "pkg_add.c", "the file %s" % d, defs=dict(CH512, SIZE=511, KIND=1, FINALOP=0, NOFILE=n), **AD) for n, d in ((1, "does not exist"), (2, "cannot be opened"))] + [
    H("dup", "pkg_add.c", "the part exists already", defs=dict(CH512, SIZE=511, KIND=1, FINALOP=0, DUP=1), **AD),
    H("less", "pkg_add.c", "the file ends 2 bytes before its announced 514", defs=dict(CH512, SIZE=514, KIND=1, FINALOP=0, LESS=2), **AD),
    H("faults", "pkg_add.c", "a file of 515 bytes, one failing file call", defs=dict(CH512, SIZE=515, KIND=2, FINALOP=0, IOFAULTS=1), tiers=T, timeout=3000, **AD)] + [
    H("fault%d" % n, "pkg_add.c", "a file of 515 bytes, file call %d fails" % n, defs=dict(CH512, SIZE=515, KIND=2, FINALOP=0, IOFAULTS=1, FAIL_AT=n), need_reach=False, hint="size511", **AD) for n in range(1, 19)] + [
    H("small", "pkg_add.c", "a file of 0..600 bytes added to one part", defs=dict(CH512, LO=0, HI=600, KIND=1, FINALOP=0), tiers=T, timeout=3000, **AD),
    H("big", "pkg_add.c", "a file of 1000..1300 bytes added to two parts", defs=dict(CH512, LO=1000, HI=1300, KIND=3, NPARTS=2, FINALOP=0), tiers=T, timeout=3000, **AD),
])
AT = dict(unwind=4200, lo=4, ladder=(34, 66, 140, 600), stubs=("file", "random", "mem"))
CHECKS["C26"] = dict(harnesses=[
    H("tree%d" % n, "pkg_add.c", "a file of %d bytes with hash tree added to one part" % n, defs=dict(CH512, SIZE=n, KIND=1, FINALOP=1, ADD_TREE=1, VF_MEM=1), **AT) for n in (1, 600)] + [
    H("coded", "pkg_add.c", "a file of 514 bytes with hash tree added behind an encoded part", defs=dict(CH512, SIZE=514, KIND=1, FINALOP=1, ADD_TREE=1, VF_MEM=1, TR=100), hint="tree600", **AT)] + [
    H("fault%d" % n, "pkg_add.c", "a file of 515 bytes with hash tree, file call %d fails" % n, defs=dict(CH512, SIZE=515, KIND=2, FINALOP=1, IOFAULTS=1, ADD_TREE=1, VF_MEM=1, FAIL_AT=n), need_reach=False, hint="tree600", **AT) for n in range(1, 35)] + [
    ])
CHECKS["C27"] = dict(harnesses=[
    H("key%d" % n, "pkg_add.c", "a key of %d bytes added to one part" % n, defs=dict(CH512, SIZE=n, KIND=1, FINALOP=0, ADD_KEY=1), **AD) for n in (91, 512, 513)] + [
    H("coded", "pkg_add.c", "a key of 91 bytes added behind an encoded part", defs=dict(CH512, SIZE=91, KIND=1, FINALOP=0, ADD_KEY=1, TR=100), hint="key91", **AD)] + [
    H("fault%d" % n, "pkg_add.c", "a key of 91 bytes, file call %d fails" % n, defs=dict(CH512, SIZE=91, KIND=1, FINALOP=0, ADD_KEY=1, IOFAULTS=1, FAIL_AT=n), need_reach=False, hint="key91", **AD) for n in range(1, 14)] + [
    H("keys", "pkg_add.c", "keys of 1..600 bytes added to one part", defs=dict(CH512, LO=1, HI=600, KIND=1, FINALOP=0, ADD_KEY=1), tiers=T, timeout=3000, **AD),
])
DL = dict(unwind=4200, lo=4, ladder=(9, 34, 66, 140, 600, 2000), stubs=("file", "mem"))
MIX, PLAIN = "0,BPAK_FLAG_TRANSPORT,BPAK_FLAG_EXCLUDE_FROM_HASH,0", "0,0,0,0"
ALLT = "BPAK_FLAG_TRANSPORT,BPAK_FLAG_TRANSPORT,0,BPAK_FLAG_TRANSPORT"
MR = "0x100,0x101,0x101,0,0x103"
CHECKS["C24"] = dict(harnesses=[
    H("del%d_%s" % (d, n), "pkg_del.c", "part %d of 4 (%s) deleted, %s metadata; every content" % (d, n, "with" if r else "without"), defs=dict(CH8, DEL=d, FLAGS=f, MREFS=MR, REMOVE=r, KIND=k), tiers=t, hint="del1_mixed", **DL)
    for d, n, f, r, k, t in ((0, "mixed", MIX, 1, 1, Q + T), (1, "mixed", MIX, 1, 3, Q + T), (2, "mixed", MIX, 0, 2, Q + T), (3, "plain", PLAIN, 1, 1, Q + T), (0, "trans", ALLT, 0, 1, Q + T), (1, "plain", PLAIN, 0, 1, T), (1, "trans", ALLT, 1, 1, T), (3, "mixed", MIX, 1, 1, T), (2, "trans", ALLT, 1, 1, T))] + [
    H("all%d" % r, "pkg_del.c", "all parts deleted, %s metadata" % ("with" if r else "without"), defs=dict(CH8, DEL=99, FLAGS=MIX, MREFS=MR, REMOVE=r, KIND=1), hint="all1", **DL) for r in (0, 1)] + [
    H("missing", "pkg_del.c", "a part that is not there", defs=dict(CH8, DEL=7, FLAGS=MIX, MREFS=MR, REMOVE=1, KIND=1), hint="del1_mixed", **DL)] + [
    H("fault%d" % n, "pkg_del.c", "part 1 of 4 deleted, file call %d fails" % n, defs=dict(CH8, DEL=1, FLAGS=MIX, MREFS=MR, REMOVE=1, KIND=1, IOFAULTS=1, FAIL_AT=n), need_reach=False, hint="del1_mixed", **DL) for n in range(1, 34)] + [
    H("afault%d" % n, "pkg_del.c", "all parts deleted, file call %d fails" % n, defs=dict(CH8, DEL=99, FLAGS=MIX, MREFS=MR, REMOVE=1, KIND=1, IOFAULTS=1, FAIL_AT=n), need_reach=False, hint="all1", **DL) for n in range(1, 5)])
CHECKS["C25"] = dict(harnesses=[
    H("ex%d_%d%s" % (w, s, n), "pkg_extract.c", "part %d of 3 (%s), %d bytes in the second, every content" % (w, n, s), defs=dict(CH8, WHICH=w, SIZE=s, FLAGS=f, SHORT=0), hint="ex1_20plain", **DL)
    for w, s, n, f in ((0, 9, "plain", "0,0,0"), (1, 20, "plain", "0,0,0"), (1, 16, "mixed", "BPAK_FLAG_TRANSPORT,0,0"), (1, 0, "plain", "0,0,0"), (2, 9, "mixed", "0,BPAK_FLAG_TRANSPORT,0"), (2, 9, "trans", "0,0,BPAK_FLAG_TRANSPORT"))] + [
    H("missing", "pkg_extract.c", "a part that is not there", defs=dict(CH8, WHICH=5, SIZE=9, FLAGS="0,0,0", SHORT=0), hint="ex1_20plain", **DL),
    H("short", "pkg_extract.c", "a package that ends inside the part", defs=dict(CH8, WHICH=2, SIZE=9, FLAGS="0,0,0", SHORT=1), hint="ex1_20plain", **DL),
    H("noout", "pkg_extract.c", "the output cannot be created", defs=dict(CH8, WHICH=2, SIZE=9, FLAGS="0,0,0", SHORT=0, NOOUT=1), hint="ex1_20plain", **DL),
    H("faults", "pkg_extract.c", "part of 20 bytes, any one file call fails", defs=dict(CH8, WHICH=1, SIZE=20, FLAGS="0,0,0", SHORT=0, IOFAULTS=1), hint="ex1_20plain", **DL)])
BP = dict(unwind=6000, lo=9, ladder=(34, 66, 140, 600), flags=("--max-field-sensitivity-array-size", "256"))
BM = dict(BP, stubs=("mem",))
CTS = dict(a="{5,3,-4},{4,0,0}", b="{0,2,3},{9,1,-12}", c="{0,0,2},{1,0,0}", d="{8,0,16},{0,9,0}", e="{3,4,21},{0,0,-5}")
PK = {0: "uncompressed", 1: "packed by heatshrink", 2: "packed by lzma"}
def bp(name, c, text, pack=0, **k):
    need = k.pop("need_reach", True); t = k.pop("tiers", Q + T)
    d = dict(CTL=CTS.get(c, c), BUFL=8, PACK=pack, VF_MEMSET_BIG=100, BPAK_VF_BUFSIZ=16, BPAK_VF_NOUNION=1, **k)
    return H(name, "bspatch.c", "control blocks %s, %s, %s; every difference, extra and origin byte" % (d["CTL"], PK[pack], text), defs=d, need_reach=need, hint="a_0_0", tiers=t, cfg=dict(LZMA=1) if pack == 2 else None, **BM)
CHECKS["C15"] = dict(harnesses=[
    bp("%s_%d_%d" % (c, k, lo), c, "input cut at %d..%d and %d bytes later" % (lo, lo + 15, k), CUT2=k, CLO=lo, CHI=lo + 15, need_reach=lo < 48, tiers=Q + T if (c, k) in (("a", 0), ("b", 7), ("c", 24), ("d", 1), ("e", 3)) else T)
    for c in "abcde" for k in (0, 1, 3, 7, 24) for lo in (0, 16, 32, 48)] + [
    bp("pack%d_%s_%d" % (p, c, lo), c, "input cut at %d..%d and %d bytes later" % (lo, lo + 15, k), pack=p, CUT2=k, CLO=lo, CHI=lo + 15, need_reach=lo < 48)
    for p in (1, 2) for c, k in (("a", 5), ("d", 11)) for lo in (0, 16, 32, 48)] + [
    bp("outside", "{5,3,-6},{4,0,0}", "a copy before the origin", CUT2=3, CLO=0, CHI=7, need_reach=False),
    bp("behind", "{5,3,16},{4,0,0}", "a copy behind the origin", CUT2=3, CLO=0, CHI=7, need_reach=False),
    bp("faults", "a", "each read and write failing or short", CUT2=0, FAULT=8),
    bp("faultsd", "d", "each read and write failing or short", CUT2=0, FAULT=9),
    bp("pfault1", "a", "each call of the decompressor failing", pack=1, CUT2=0, PFAULT=30),
    bp("pfault2", "a", "each call of the decompressor failing", pack=2, CUT2=0, PFAULT=15),
])
CHECKS["C14"] = dict(harnesses=[
    H("any%d" % n, "bspatch_any.c", "every patch stream of %d bytes cut at %s, every callback result" % (n, c), checks="full", defs=dict(dict(N=n, BUFL=8), **({} if c == "any place" else dict(CUT=c))), **dict(BP, lo=5, ladder=(9, 14, 34, 66))) for n, c in ((26, "any place"), (30, 25), (50, 40))])
KS = dict(unwind=600, lo=5, ladder=(9, 34, 66, 140, 600), stubs=("file",))
CHECKS["C28"] = dict(harnesses=[
    H("get", "keystore.c", "every keystore of up to 3 keys, every id, verified or not", unwind=70, defs=dict(GET=1)),
    H("load0", "keystore.c", "key in the first of 3 parts, no check callback; every provider, size, content and file length", defs=dict(WHICH=0, NOCHECK=1), **KS),
    H("load1", "keystore.c", "key in the second of 3 parts; every provider, check answer, size, content and file length", defs=dict(WHICH=1), hint="load0", **KS),
    H("load2", "keystore.c", "key in the last of 3 parts; every provider, check answer, size, content and file length", defs=dict(WHICH=2), hint="load0", **KS),
    H("nokey", "keystore.c", "no such key", defs=dict(WHICH=7), hint="load0", **KS),
    H("nometa", "keystore.c", "no provider id in the header", defs=dict(META=0), hint="load0", **KS),
    H("nofile", "keystore.c", "no such file", defs=dict(NOFILE=1), hint="load0", **KS)] + [
    H("fault%d" % n, "keystore.c", "file call %d fails" % n, defs=dict(IOFAULTS=1, FAIL_AT=n), need_reach=False, hint="load0", **KS) for n in range(1, 7)])
TD = dict(unwind=4200, lo=9, ladder=(17, 34, 66, 140), stubs=("file",))
def td(name, kinds, text, **k):
    need = k.pop("need_reach", True); t = k.pop("tiers", Q + T)
    return H(name, "transport_dec.c", text, defs=dict(CH8, **{"K%d" % i: x for i, x in enumerate(kinds.split(","))}, **k), need_reach=need, tiers=t, hint="cpm", **TD)
CHECKS["C20"] = dict(harnesses=[
    td("cpm", "C,P,M", "a copied, a patched and a generated part; every content, tree and engine answer"),
    td("pc", "P,C", "a patched (heatshrink) and a copied part; every content and engine answer", ALG="BPAK_ID_BSPATCH"),
    td("mx", "C,P", "a copied and a patched (lzma) part; every content and engine answer", ALG="BPAK_ID_BSPATCH_LZMA"),
    td("cm", "C,M", "a copied and a generated part, no origin", ORIGIN=0),
    td("noorigin", "C,P", "a patched part but no origin", ORIGIN=0, REFUSED=1),
    td("nosalt", "C,M", "no salt for the generated part", NOSALT=1, REFUSED=1),
    td("alone", "M,C", "a generated part without its data part", ORIGIN=0, REFUSED=1),
    td("unknown", "C,P", "an unknown decoder", ALG=4660, REFUSED=1),
    td("nometa", "C,X", "an encoded part without a decoder in the header", REFUSED=1),
    td("short", "C,P", "the input ends inside the last part", SHORT=1, REFUSED=1),
    td("lacks", "P,C", "the origin lacks a part", ORIGIN=3, REFUSED=1)] + [
    td("fault%d" % n, "C,P", "a copied and a patched part, file call %d fails" % n, IOFAULTS=1, FAIL_AT=n, need_reach=False) for n in range(1, 23)] + [
    td("mfault%d" % n, "C,M", "a copied and a generated part, file call %d fails" % n, IOFAULTS=1, FAIL_AT=n, ORIGIN=0, need_reach=False) for n in range(12, 26)])
CHECKS["C22"] = dict(harnesses=[
    td("decode", "C,C", "decoding two copied parts, every package id of input and origin", UUIDS=1),
    td("differ", "P,C", "decoding with an origin whose id differs", UDIFF=1, REFUSED=1),
    td("noid", "P,C", "decoding with an origin without id", ORIGIN=2, REFUSED=1),
    td("nopid", "P,C", "decoding a package without id", NOUUID=1, REFUSED=1),
])
TE = dict(TD, stubs=("file", "mem"))
def te(name, kinds, text, **k):
    need = k.pop("need_reach", True); t = k.pop("tiers", Q + T)
    return H(name, "transport_enc.c", text, defs=dict(CH8, VF_MEM_HDR=1, **{"K%d" % i: x for i, x in enumerate(kinds.split(","))}, **k), need_reach=need, tiers=t, hint="cdr", **TE)
CHECKS["C21"] = dict(harnesses=[
    te("cdr", "C,D,R", "a copied, a diffed and an emptied part; every content and engine answer"),
    te("tdc", "T,D,C", "an encoded, a diffed (heatshrink) and a copied part", ALG="BPAK_ID_BSDIFF"),
    te("rd", "R,D", "an emptied and a diffed (lzma) part", ALG="BPAK_ID_BSDIFF_LZMA"),
    te("ctr", "C,T,R", "a copied, an encoded and an emptied part, no origin", ORIGIN=0, ACCEPTED=1),
    te("noorigin", "C,D", "a part to be diffed but no origin", ORIGIN=0, REFUSED=1),
    te("closed", "C,D", "a part to be diffed but an origin that is not open", ORIGIN=4, REFUSED=1),
    te("unknown", "C,D", "an unknown encoder", ALG=4660, REFUSED=1),
    te("short", "D,C", "the input ends inside the last part", SHORT=1, REFUSED=1),
    te("lacks", "C,D", "the origin lacks the part", ORIGIN=3, REFUSED=1)] + [
    te("fault%d" % n, "C,D", "a copied and a diffed part, file call %d fails" % n, IOFAULTS=1, FAIL_AT=n, need_reach=False) for n in range(1, 21)])
CHECKS["C22"]["harnesses"] += [
    te("encode", "C,R", "encoding a copied and an emptied part, every package id of input and origin", UUIDS=1),
    te("ediffer", "D,C", "encoding against an origin whose id differs", UDIFF=1, REFUSED=1),
    te("enoid", "D,C", "encoding against an origin without id", ORIGIN=2, REFUSED=1),
    te("enopid", "D,C", "encoding a package without id", NOUUID=1, REFUSED=1),
]
RD = dict(unwind=200, lo=9, ladder=(17, 34, 66, 100), stubs=("fmt",), checks="mem")
def rd(name, idn, need, kind, msize, **k):
    return H(name, "render.c", "metadata %s of %d bytes, every content, buffers of 0..90 bytes" % (idn, msize), defs=dict(ID="BPAK_ID_" + idn, NEED=need, KIND=kind, MSIZE=msize, **k), need_reach=msize >= need, **RD)
CHECKS["C30"] = dict(harnesses=[
    H("bin2hex", "render.c", "0..40 bytes of any content, buffers of 0..90 bytes", defs=dict(BIN2HEX=40), **RD),
    H("uuid", "render.c", "every 16 bytes, buffers of 0..90 bytes", defs=dict(UUID=1, VF_FMT_FIXED=1), **RD),
    rd("salt", "MERKLE_SALT", 32, 1, 32), rd("salt31", "MERKLE_SALT", 32, 1, 31),
    rd("root", "MERKLE_ROOT_HASH", 32, 1, 32), rd("root5", "MERKLE_ROOT_HASH", 32, 1, 5),
    rd("version", "BPAK_VERSION", 0, 2, 7), rd("version60", "BPAK_VERSION", 0, 2, 60), rd("version0", "BPAK_VERSION", 0, 2, 0),
    rd("keyid", "BPAK_KEY_ID", 4, 3, 4, PRE=0), rd("keyid3", "BPAK_KEY_ID", 4, 3, 3, PRE=0),
    rd("keystore", "BPAK_KEY_STORE", 4, 3, 4, PRE=0), rd("keystore0", "BPAK_KEY_STORE", 4, 3, 0, PRE=0),
    rd("provider", "KEYSTORE_PROVIDER_ID", 4, 3, 4, PRE=2), rd("provider3", "KEYSTORE_PROVIDER_ID", 4, 3, 3, PRE=2),
    rd("package", "BPAK_PACKAGE", 16, 4, 16, VF_FMT_FIXED=1), rd("package15", "BPAK_PACKAGE", 16, 4, 15),
    rd("transport", "BPAK_TRANSPORT", 32, 0, 32), rd("transport31", "BPAK_TRANSPORT", 32, 0, 31),
    rd("load", "PB_LOAD_ADDR", 8, 0, 8), rd("load7", "PB_LOAD_ADDR", 8, 0, 7),
])
OP = dict(unwind=600, lo=9, ladder=(34, 66, 140, 600), stubs=("file",))
CHECKS["C31"] = dict(harnesses=[
    H("file", "open.c", "every header, every file length from 1 byte, for changing", **OP),
    H("read", "open.c", "every header, every file length from 1 byte, for reading", defs=dict(RO=1), **OP),
    H("empty", "open.c", "an empty file, for changing", defs=dict(EMPTY=1), need_reach=False, **OP),
    H("emptyro", "open.c", "an empty file, for reading", defs=dict(EMPTY=1, RO=1), need_reach=False, **OP),
    H("missing", "open.c", "no such file", defs=dict(NEWFILE=1), need_reach=False, **OP),
    H("create", "open.c", "a new file", defs=dict(NEWFILE=1, WR=1), need_reach=False, **OP),
    H("wronly", "open.c", "a new file that can not be read", defs=dict(NEWFILE=1, WO=1), need_reach=False, **OP),
    H("replace", "open.c", "a new file in place of another", defs=dict(NEWFILE=2, WR=1), need_reach=False, **OP),
    H("nomode", "open.c", "no mode", defs=dict(NOMODE=1), need_reach=False, **OP),
    H("hfault", "open.c", "a new file, any one hash call fails", defs=dict(NEWFILE=1, WR=1, FAULTS=1), need_reach=False, **OP)] + [
    H("fault%d" % n, "open.c", "file call %d fails for a file with contents" % n, defs=dict(IOFAULTS=1, FAIL_AT=n), need_reach=False, **OP) for n in range(1, 5)] + [
    H("nfault%d" % n, "open.c", "file call %d fails for a new file" % n, defs=dict(NEWFILE=1, WR=1, IOFAULTS=1, FAIL_AT=n), need_reach=False, **OP) for n in range(1, 6)])
CHECKS["C32"] = dict(harnesses=[
    H("copyz%d" % n, "hdr_misc.c", "every header with a signature length of %d, every buffer size" % n, unwind=600, defs=dict(COPYZ=1, SZ=n), need_reach=0 < n <= 512) for n in (0, 1, 71, 512, 513, 65535)] + [
    H("set", "hdr_misc.c", "every header and id", unwind=600),
])
CHECKS["C21"]["harnesses"] += [
    H("copy%d" % i, "transport_copy.c", "parts of %s bytes (stored encoded: %s), all copied; every byte position" % (a, b), unwind=600, lo=9, ladder=(34, 66, 140, 600), stubs=("file",), defs=dict(SIZES=a, TSIZES=b)) for i, (a, b) in enumerate((("1700,2600", "0,0"), ("900,3000,513", "1025,0,2049")))]
