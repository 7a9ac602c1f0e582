"""Which CBMC jobs decide which property."""
import re

from tools.vp import Job

PROPS = {}
NOT_APPLICABLE = {}
CBMC = "symbolic execution of the C code (CBMC), every value within bounds decided by SAT"
CONTROL = ["fstrm/control.c"]


def prop(pid, explanation, quick, thorough=(), outside="", assumptions=(), technique=CBMC):
    PROPS[pid] = dict(explanation=explanation, quick=list(quick),
                      thorough=list(thorough), outside=outside,
                      assumptions=list(assumptions), technique=technique)


def dec_any(n, hdr, exact=False, reuse=False, **kw):
    d = {"DECODE_ANY": 1 if hdr else 0, "N": n, "MAXF": max(1, (n - (12 if hdr else 4)) // 8)}
    if exact:
        d["EXACT"] = 1
    if reuse:
        d["REUSE"] = 1
    return Job("dec_any%d%s%s%s" % (n, "_hdr" if hdr else "", "_exact" if exact else "",
                                    "_reuse" if reuse else ""),
               "control.c", CONTROL, d, unwind=d["MAXF"] + 3,
               bounds="every byte string of length 0..%d, %s outer header" % (n, "with" if hdr else "without"),
               weight=n, **kw)


def shape(fields, cut=0, hdr=False, hd=0, exp=True):
    return "{%d,{%s},%d,%d,%d,%d}" % (len(fields), ",".join(map(str, fields or [0])), cut, hdr, hd, exp)


def dec_shapes(name, shapes, unwind=8, **kw):
    return Job(name, "control.c", CONTROL, {"DECODE_SHAPE": 1, "SHAPES": ",".join(shapes)},
               unwind=unwind, object_bits=11,
               bounds="%d concrete frame shapes, symbolic type word and content bytes: %s" % (len(shapes), " ".join(shapes)), **kw)


prop("C02", 'Arbitrary bytes are compared with an independent reference grammar; larger frames by concrete shapes with symbolic content.',
     [dec_any(36, False), dec_any(36, True), dec_any(20, False, exact=True), dec_any(22, False, reuse=True),
      dec_shapes("dec_shape_ct", [shape([0]), shape([1]), shape([255]), shape([256]), shape([257], exp=False),
                                  shape([300], exp=False), shape([256, 236]), shape([256, 237], exp=False)]),
      dec_shapes("dec_shape_hdr", [shape([256, 236], hdr=True), shape([256, 237], hdr=True, exp=False),
                                   shape([256], hdr=True, hd=1, exp=False), shape([256], hdr=True, hd=-1, exp=False),
                                   shape([257], hdr=True, exp=False)]),
      dec_shapes("dec_shape_cut", [shape([10, 20], cut=c, exp=False) for c in (-21, -20, -1, 1, 4, 7)] +
                                  [shape([10, 20], cut=8, exp=False)]),
     ],
     outside='arbitrary byte strings over 36 bytes other than the listed shapes')


def enc(k, l, **kw):
    return Job("enc_k%d_l%d" % (k, l), "control.c", CONTROL, {"ENCODE": 1, "K": k, "L": l},
               unwind=k + 3, bounds="%d content types of every length 0..%d, every type, every output buffer size" % (k, l), **kw)


def enc_shapes(name, shapes, types=(1, 2, 4), **kw):
    sh = ",".join("{%d,%d,{%s}}" % (t, len(s), ",".join(map(str, s or [0]))) for s in shapes for t in types)
    return Job(name, "control.c", CONTROL, {"ENCODE_SHAPE": 1, "SHAPES": sh}, unwind=9, object_bits=12,
               bounds="content type lengths %s, types %s, with and without header, symbolic content bytes" % (shapes, types), **kw)


def match(k, l, **kw):
    return Job("match_k%d_l%d" % (k, l), "control.c", CONTROL, {"MATCH": 1, "K": k, "L": l},
               unwind=max(k, l) + 3, bounds="%d content types of every length 0..%d, every type, every probe of length 0..%d or none" % (k, l, l + 1), **kw)


prop("C01", 'Encode is compared with an independently written byte layout for symbolic types, content types and buffer sizes, then decoded again.',
     [enc(0, 1), enc(1, 4), enc(2, 2), enc(3, 2, weight=9)], [enc(4, 3), enc(2, 6)],
     outside='more than 4 content types with symbolic lengths, lengths over 6 (single larger shapes are in C03)')
prop("C03", 'Concrete length shapes on both sides of each limit, symbolic content bytes.', [enc_shapes("enc_shape_ct", [[255], [256], [257]]),
                 enc_shapes("enc_shape_sum", [[256, 236], [256, 237]]),
                 enc_shapes("enc_shape_hdr", [[256, 228], [256, 229]]),
                 enc_shapes("enc_shape_big", [[400], [1, 257], [250, 250]])],
     outside='other length combinations')
prop("C04", 'Symbolic frame and probe compared with set membership.', [match(0, 3), match(1, 3), match(2, 3), match(3, 3, weight=9)], [match(4, 4)],
     outside='more than 4 content types, lengths over 5')

RD = ["fstrm/reader.c", "fstrm/rdwr.c", "fstrm/control.c"]


def rd(name, scripts, fault=True, maxframe=4096, blk=0, symmax=False, **kw):
    """scripts: list of (two_way, "D3 U D2 C3") strings."""
    out, size = [], 0
    for two, text in scripts:
        items = re.findall(r"([A-Z])(\d*)", text)
        out.append("{%d,%d,{%s}}" % (two, len(items), ",".join("{%s,%s}" % (k, a or 0) for k, a in items)))
        size = max(size, 24 + sum({"D": 4, "G": 8}.get(k, 12) + (int(a or 0) if k in "DG" else 0) for k, a in items) + 8)
    d = {"SCRIPTS": ",".join(out), "INSIZE": size, "MAXFRAME": maxframe}
    if fault:
        d["FAULT"] = 1
    if symmax:
        d["SYM_MAX"] = 1
    if blk:
        d["VP_BLK"] = blk
    return Job(name, "reader.c", RD, d, unwind=6, max_unwind=40,
               flags=["--max-field-sensitivity-array-size", "4096"],
               bounds="streams %s, any content bytes%s" % ([("two-way " if t else "") + x for t, x in scripts],
               ", any one read or write call fails" if fault else ""), **kw)


prop("C05", 'Scripted streams with symbolic content are fed through a symbolic transport; the delivered frames are compared with the script.', [rd("rd_basic", [(0, "D1 D2 D3 C3")]), rd("rd_two", [(1, "D3 C3")]),
                 rd("rd_skip", [(0, "D2 K0 D3 K6 K255 D1 C3")], fault=False), rd("rd_skip2", [(0, "K6 D1 C3")]),
                 rd("rd_skip3", [(0, "K%d K%d D1 C3" % (0x03000000, 0xffffffff))], fault=False),
                 rd("rd_skip_any", [(0, "U D1")], fault=False, blk=96),
                 rd("rd_ctl0", [(0, "D1 G0 D1")], fault=False),
                 rd("rd_ctl3", [(0, "G3 D2")], fault=False),
                 rd("rd_ctl12", [(0, "G12 D1")], fault=False, blk=96),
                 rd("rd_big", [(0, "D300 D600 C3")], fault=False),
                 rd("rd_limit1", [(0, "D1 Z")], fault=False, blk=96),
                 rd("rd_limit2", [(0, "D1 L")], fault=False, blk=96),
                 rd("rd_limit3", [(1, "Z")], fault=False, blk=96),
                 ],
     outside='streams of more than 6 frames, more than one failing transport call')

prop("C06", 'The payload length of a frame and the configured maximum are symbolic 32-bit values; buffers of symbolic size are modelled by their size and one symbolic byte.', [rd("rd_max1", [(0, "S")], fault=False, symmax=True, blk=96, reach=("exactly the maximum size", "over the maximum size")),
                 rd("rd_max2", [(0, "D3 S")], fault=False, blk=96, maxframe=1048576, reach=("exactly the maximum size", "over the maximum size")),
                 rd("rd_max3", [(1, "D20 D3 S")], fault=False, blk=96, maxframe=512, reach=("exactly the maximum size", "over the maximum size")),
                 rd("rd_max4", [(0, "D3 S")], fault=False, blk=96, maxframe=4294967294, reach=("exactly the maximum size", "over the maximum size")),
                 rd("rd_limit1", [(0, "D1 Z")], fault=False, blk=96),
                 rd("rd_limit2", [(0, "D1 L")], fault=False, blk=96),
                 rd("rd_limit3", [(1, "Z")], fault=False, blk=96),
                 ],
     outside='heap exhaustion')



def rl(name, runs, faults=(("NONE", 0, 0),), evset=None, paths=0, **kw):
    d = {"RUNS": ",".join('{%d,"%s"}' % r for r in runs), "FAULTS": ",".join("{%s,%d,%d}" % f for f in faults)}
    if evset:
        d["EVSET"] = '"%s"' % evset
    fl = ["--max-field-sensitivity-array-size", "4096"]
    if paths:
        d["VP_NOFREE"] = 1
        kw.setdefault("own_checks", False)
        fl += ["--paths", "lifo"]
    return Job(name, "rdlife.c", RD, d, unwind=7, max_unwind=20, lib_unwind=40, object_bits=12, flags=fl,
               bounds="calls %s (o r c: open, read, close; s y a p f x: get_control of each type), two frames of any content, failing call %s" % (
                   ["%s%s" % ("two-way " if t else "", e) for t, e in runs], list(faults)), **kw)


def rlf(name, two, ev, opens, reads, writes, closes, **kw):
    f = [("OPEN", 1, opens), ("READ", 1, reads), ("CLOSE", 1, closes)] + ([("WRITE", 1, writes)] if writes else [])
    return rl(name, [(two, ev)], f, **kw)


prop("C08", "Any sequence of calls on a reader over an in-memory transport is compared with a reference state machine; one transport call fails.",
     [rl("rl_any1", [(0, "????")], paths=1), rl("rl_any2", [(1, "???")], paths=1), rl("rl_end1", [(0, "rrr??")], paths=1), rl("rl_end2", [(1, "rrr??")], paths=1),
      rl("rl_get", [(1, "pyasfxrrpyarpyasfxcpyasfx"), (0, "yaprrrspyafxcsp"), (1, "sro"), (0, "f"), (1, "x"), (1, "a")]),
      rlf("rl_f1", 0, "orrrcorrrc", 2, 15, 0, 2), rlf("rl_f2", 1, "rrrcosrrc", 2, 20, 4, 2), rlf("rl_f3", 1, "rcocor", 3, 7, 0, 2), rl("rl_f3b", [(1, "rcocor")], [("READ", 8, 15), ("WRITE", 1, 5)]), rl("rl_f3c", [(1, "rcocor")], [("READ", 16, 26)]), rlf("rl_f4", 0, "rrprorcproa", 2, 14, 0, 2),
      rl("rl_fany1", [(0, "r??")], [("OPEN", 1, 1), ("READ", 1, 6), ("CLOSE", 1, 1)], paths=1), rl("rl_fany2", [(1, "o??")], [("WRITE", 1, 2), ("READ", 2, 7), ("CLOSE", 1, 1)], paths=1)],
     [rl("rl_any3", [(0, "?????")], paths=1, timeout=2400), rl("rl_any4", [(1, "????")], paths=1, timeout=2400), rlf("rl_fany3", 1, "???", 3, 14, 4, 2, paths=1, timeout=2400)],
     outside="longer call sequences, several failing calls, streams with control frames (C05)")

WR = ["fstrm/writer.c", "fstrm/rdwr.c", "fstrm/control.c"]


def hs(name, side, mine, peer=(), start=(), two=True, t1=None, t2=None, lohi=None, w=None, **kw):
    ls = lambda x: "".join("%d," % i for i in x)
    if t1 is None:
        t1 = 4 if side == "READER" else 1
    if t2 is None:
        t2 = 2 if side == "READER" else 5
    n = len(mine) * (2 if two and side == "READER" else 1)
    d = {side: 1, "MINE": ls(mine), "PEER": ls(peer), "STARTT": ls(start), "TYPE1": t1, "TYPE2": t2, "NCASES": n}
    if two:
        d["TWOWAY"] = 1
    if kw.pop("twice", 0):
        d["TWICE"] = 1
    if w:
        d["W"] = w
    if lohi:
        d["CASE_LO"], d["CASE_HI"] = lohi
    m = ["fstrm_control_match_field_content_type"]
    return Job(name, "handshake.c", RD if side == "READER" else WR, d, unwind=7, object_bits=12, max_unwind=20,
               src_rename={"fstrm/reader.c": m, "fstrm/writer.c": m},
               flags=["--max-field-sensitivity-array-size", "4096"],
               bounds="%s, %s: own content types of %s bytes, the peer's %s, START's %s, any bytes; frame types %d, %d" % (
                   side.lower(), "two-way" if two else "one-way", mine, peer, start, t1, t2), **kw)


def hss(name, side, mine, peer=(), start=(), per=4, ncases=None, **kw):
    n = 1 << (len(mine) * (2 if side == "READER" else 1))
    return [hs("%s_%d" % (name, lo), side, mine, peer, start, lohi=(lo, min(n, lo + per)), **kw) for lo in range(0, n, per)]


prop("C07", 'Own, offered and announced content types are symbolic; the answer is compared with set operations.', [hs("hs_r1", "READER", (), (), (1,), two=False), hs("hs_r2", "READER", (1,), (), (1,), two=False),
                 hs("hs_r3", "READER", (2, 1, 2), (), (2,), two=False),
                 hs("hs_r4", "READER", (1,), (1,), (1,))] + hss("hs_r5", "READER", (1, 1), (1, 1), (1,)) +
                 hss("hs_r6", "READER", (1, 2), (2,), (), per=8) +
                 [hs("hs_r7", "READER", (1,), (256, 236), (1,), w=256, lib_unwind=260, weight=50),
                  hs("hs_rs%d" % 0, "READER", (1,), (1,), (1, 1))] +
                 [hs("hs_twice", "READER", (1,), (1,), (1,), twice=1), hs("hs_twice1", "READER", (1,), (), (1,), twice=1, two=False)] +
                 [hs("hs_ra%d" % t, "READER", (1,), (), (), t1=t) for t in (1, 2, 3, 5)] +
                 [hs("hs_rb%d" % t, "READER", (1,), (), (), t2=t) for t in (1, 3, 4, 5)] +
                 [hs("hs_rc%d" % t, "READER", (), (), (), t2=t, two=False) for t in (1, 3, 4, 5)],
     [hs("hs_r8", "READER", (256, 228), (), (256,), w=256, lib_unwind=260, weight=50)],
     outside='more than 2 own and 2 offered content types with symbolic bytes, longer types')
prop("C10", 'Own and accepted content types are symbolic; the bytes written are compared with set operations.', [hs("hs_w1", "WRITER", (), two=False), hs("hs_w2", "WRITER", (2,1), two=False),
                 hs("hs_w3", "WRITER", (1,), (1,)), hs("hs_w4", "WRITER", (1,1), (1,))] + hss("hs_w5", "WRITER", (1,1,1), (1,1), per=2) +
                 [hs("hs_w6", "WRITER", (256,), (256, 236), w=256, lib_unwind=260, weight=50), hs("hs_w7", "WRITER", (), (1,)),
                  hs("hs_w8", "WRITER", (2, 1), ())] +
                 [hs("hs_wa%d" % t, "WRITER", (1,), (), t1=t) for t in (2, 3, 4, 5)] +
                 [hs("hs_wb%d" % t, "WRITER", (1,), (), t2=t) for t in (1, 2, 3, 4)],
     [hs("hs_w9", "WRITER", (256, 228), (228,), w=256, lib_unwind=260, weight=50)],
     outside='more than 3 own and 2 accepted content types, longer types')


def optc(name, side, lens, **kw):
    o = sum(8 + n for n in lens if n <= 256) + 24 + 8 + 256 + 40
    return Job(name, "optcopy.c", RD if side == "READER" else WR, {side: 1, "LENS": ",".join(map(str, lens)), "MAXLEN": max(lens) + 1, "OUTSIZE": o}, unwind=7, max_unwind=20,
               lib_unwind=320, object_bits=11, flags=["--max-field-sensitivity-array-size", "4096"], bounds="%s options with content types of %s bytes, any bytes" % (side.lower(), lens), **kw)


prop("C38", "Option objects with symbolic content types are used for several objects and changed and destroyed before these are opened.",
     [optc("opt_%s%d" % (s[0].lower(), i), s, l) for s in ("READER", "WRITER") for i, l in enumerate(((1, 2, 0), (3, 257, 2), (256, 1), (0, 300)))],
     outside="other lengths and numbers of content types")


def rdwr(n, **kw):
    return Job("rdwr_%d" % n, "rdwr.c", ["fstrm/rdwr.c", "fstrm/control.c"], {"STEPS": n}, unwind=4, bounds="every sequence of %d calls, any methods missing but close, any results and sizes" % n, **kw)


prop("C39", "Symbolic call sequences, methods and results against a reference.", [rdwr(5)], [rdwr(9)], outside="longer sequences; opening an open transport; no close method")


def wrf(name, two, text, writes, reads=0, per=4):
    """The same script with each single transport fault, split over jobs."""
    out = [wr(name + "o", two, text, ("OPEN", 0, 0))]
    for kind, n in (("WRITE", writes), ("READ", reads)):
        for lo in range(1, n + 1, per):
            out.append(wr("%s%s%d" % (name, kind[0].lower(), lo), two, text, (kind, lo, min(n, lo + per - 1))))
    return out


def wr(name, two, text, fault=None, **kw):
    items = re.findall(r"([A-Z])(\d*)", text)
    size, maxd, maxi = 64, 1, 1
    for k, a in items:
        a = int(a or 0)
        if k == "W":
            size += 4 + a
            maxd = max(maxd, a)
        if k == "V":
            size += 6 * a + 6
            maxd = max(maxd, 2 * a + 3)
            maxi = max(maxi, a)
    big = max([int(a or 0) for k, a in items if k == "V"] + [0])
    d = {"SCRIPTS": "{%d,%d,{%s}}" % (two, len(items), ",".join("{%s,%s}" % (k, a or 0) for k, a in items)),
         "OUTSIZE": size, "MAXDATA": maxd, "MAXIOV": maxi}
    if fault:
        d["FAULT_" + fault[0]] = fault[2]
        d["FAULT_LO"] = fault[1]
    kw.setdefault("unwind", max(6, min(big + 2, 131)))
    return Job(name, "writer.c", WR, d, object_bits=12, max_unwind=400,
               flags=["--max-field-sensitivity-array-size", "4096"],
               bounds="%s: %s, any content bytes%s" % ("two-way" if two else "one-way", text, (", %s call %d..%d fails" % fault) if fault else ""), **kw)


prop("C09", 'Scripted calls with symbolic content; output bytes are compared with an independent layout.', [wr("wr_basic", 0, "O W1 W3 V3 X"), wr("wr_implicit", 0, "W2 V0 V2 W1"), wr("wr_two", 1, "W2 V2 X"), wr("wr_drop", 1, "W2"), wr("wr_drop1", 0, "W1 X W2"),
                 wr("wr_reopen", 0, "W1 X O W2 X"), wr("wr_empty", 0, "W0 W2 W0 W1 X"), wr("wr_two2", 1, "O W1 X O W2 V2 X"),
                 ],
     outside='other call sequences, longer frames')
prop("C11", 'Each single failing transport call of scripted histories, symbolic content.', wrf("wr_f1", 0, "O W1 V2 W1 X", 5) + wrf("wr_f2", 0, "W1 X O W1", 6) +
     wrf("wr_f3", 1, "W1 W1 X", 5, 2) + wrf("wr_f4", 1, "O X O W1", 6, 4, 3) + wrf("wr_f5", 0, "W1 W1 O W1", 4) +
     wrf("wr_f6", 0, "O W1 O W1 X X", 4),
     wrf("wr_f7", 0, "O W1 V2 W1 X O W1", 8) + wrf("wr_f8", 1, "W1 W1 X O W1", 8, 4, 3),
     outside='two independent transport failures in one stream')


def wrlen(n, **kw):
    return Job("wr_len%d" % n, "writer.c", WR, {"LENGTHS": n}, unwind=n + 3 if n < 100 else 260, max_unwind=600,
               bounds="%d frames in one call, every 64-bit length of each" % n, **kw)


prop("C12", 'Vectors of frames with symbolic 64-bit lengths; the transport walks the buffers it is given.', [wrlen(n, weight=n) for n in (1, 2, 4, 127, 128, 129, 257)] + [wr("wr_v129", 0, "V129 W1 V3")],
     [wr("wr_v%d" % n, 0, "V%d W1 V3" % n) for n in (127, 128, 256)] + [wrlen(n) for n in (8, 64, 256, 385)],
     outside='other numbers of frames')


def sock(name, kind, mode, val=None, niov=1, scripts=None, **kw):
    d = {kind: 1, mode: val, "NIOV": niov, "FAM": kw.pop("fam", 4)}
    if scripts:
        d["SCRIPTS"] = ",".join('"%s"' % x for x in scripts)
    if "pathlen" in kw:
        d["PATHLEN"] = kw.pop("pathlen")
    if "maxlen" in kw:
        d["MAXLEN"] = "%du" % kw.pop("maxlen")
    src = "fstrm/unix_writer.c" if kind == "UNIX" else "fstrm/tcp_writer.c"
    kw.setdefault("unwind", max([len(x) for x in scripts or [""]] + [niov]) + 2)
    kw.setdefault("lib_unwind", 130)
    return Job(name, "sock.c", [src, "fstrm/rdwr.c", "fstrm/control.c"], d, max_unwind=300,
               rename=["socket", "fcntl", "connect", "close", "sendmsg", "read", "inet_pton", "strtoul"],
               bounds=kw.pop("bounds", ""), **kw)


def transfers(kind, mode, niov, scripts, maxlen=(1 << 32) - 1, tag="", **kw):
    k = kind.lower()
    return sock("%s_%s%d%s" % (k, mode.lower(), niov, tag), kind, mode, niov=niov, scripts=scripts, maxlen=maxlen,
                bounds=("%d buffers" % niov if mode == "SEND" else "a buffer") + " of any length 1..%d, "
                "results in this order (c all, p any part, i interrupted, f error, z end of file): " % maxlen + " ".join(scripts), **kw)


SIMPLE = ["c", "f", "ic", "if", "iic", "z", "iz"]
ONE = ["pc", "pf", "pz", "pic", "ipif", "piz"]
TWO = ["ppc", "ppf", "ppz", "ipipic"]
THREE = ["pppc", "pppf", "pipppc"]


def tr_jobs(kind, mode, tags):
    out = []
    for n, tag, sc, ml in tags:
        sc = [x for x in sc if mode == "RECV" or "z" not in x]
        out.append(transfers(kind, mode, n, sc, ml, tag))
    return out


SENDS = [(1, "a", SIMPLE + ONE, (1 << 32) - 1), (2, "a", SIMPLE, (1 << 32) - 1), (2, "b", ONE, 65535), (2, "c", TWO, 255), (3, "b", ONE, 1000)]
SENDS_T = [(4, "b", ONE, 255), (4, "c", TWO, 15), (6, "b", ONE[:2], 15)]
RECVS = [(1, "a", SIMPLE + ONE, (1 << 32) - 1), (1, "b", TWO, 65535), (1, "c", THREE, 255)]
prop("C13", 'The system calls are stand-ins whose partial results are symbolic; the position of the next byte is tracked exactly.', tr_jobs("UNIX", "SEND", SENDS) + tr_jobs("TCP", "SEND", SENDS), tr_jobs("UNIX", "SEND", SENDS_T) + tr_jobs("TCP", "SEND", SENDS_T),
     outside='more than 3 partial results in a row, over 6 buffers; the kernel itself')
prop("C14", 'The system calls are stand-ins whose partial results are symbolic.', tr_jobs("UNIX", "RECV", RECVS) + tr_jobs("TCP", "RECV", RECVS),
     outside='more than 3 partial results in a row; the kernel itself')
prop("C15", 'Every call sequence up to the bound with symbolic results of every system call; a descriptor table checks each use.', [sock("unix_life", "UNIX", "LIFE", 3, unwind=3), sock("tcp_life", "TCP", "LIFE", 3, unwind=3)],
     [sock("unix_life4", "UNIX", "LIFE", 4, unwind=3), sock("tcp_life4", "TCP", "LIFE", 4, unwind=3)],
     outside='longer sequences')
prop("C36", 'Symbolic path and port characters; strtoul and inet_pton are modelled by their specification.', [sock("unix_path%d" % n, "UNIX", "MAKE", 1, pathlen=n, lib_unwind=200, unwind=n + 3) for n in (1, 20, 107, 108, 130)] +
     [sock("tcp_port%d" % n, "TCP", "PORT", n, lib_unwind=40) for n in (2, 6)],
     outside="port strings over 6 characters; inet_pton's own parsing")


def filet(kind, steps, **kw):
    return Job("file_%s%d" % (kind.lower(), steps), "filet.c", ["fstrm/file.c", "fstrm/rdwr.c", "fstrm/control.c"], {kind: 1, "STEPS": steps},
               unwind=5, max_unwind=20, rename=["fopen", "fclose", "fread", "fwrite", "feof", "ferror", "fflush"], lib_unwind=8,
               bounds="every sequence of %d open, close and transfer calls, every stdio result, every file name of 1..2 characters, "
               "transfers of 1..3 buffers of any length 1..2^32-1" % steps, **kw)


prop("C16", 'Every call sequence up to the bound with symbolic stdio results.', [filet("READER", 4), filet("WRITER", 4)], [filet("READER", 6), filet("WRITER", 6)],
     outside="longer sequences; the C library's buffering")


def qconc(name, impl, nprod, size, nins, nrem, pre=0, rot=0, **kw):
    q = "my_queue_" + impl
    d = {"QOPS": q + "_ops", "NPROD": nprod, "SIZE": size, "NINS": nins, "NREM": nrem, "PRE": pre, "ROT": rot, "VP_CPYMAX": 2,
         "VP_SHARED": '"queue_shared.h"'}
    src = "libmy/%s.c" % q
    j = Job(name, "queue_conc.c", [src], d, unwind=4, max_unwind=12, lib_unwind=24,
            rename=["pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock"],
            seq=(src, [q + "_insert"] * nprod + [q + "_remove"]),
            bounds="%d producer(s) with %d insertions each, %d removals, queue size %d, %d elements before, indices rotated by %d; "
            "every interleaving of the memory accesses of the compiled code" % (nprod, nins, nrem, size, pre, rot), **kw)
    j.seq_ops = [nins] * nprod + [nrem]
    return j


prop("C17", 'The operations are compiled to LLVM IR on every run and translated to a step machine with one shared memory access per step; the solver picks the thread of each step.', [qconc("spsc_a", "mb", 1, 2, 2, 2), qconc("spsc_b", "mb", 1, 4, 2, 2, 3, 2), qconc("spsc_c", "mb", 1, 4, 2, 2, 1, 3)],
     outside="more operations, hardware memory models weaker than x86-TSO's load and store order as seen by the compiled accesses")
prop("C18", 'The operations are compiled to LLVM IR on every run and translated to a step machine with one shared memory access or lock operation per step; the solver picks the thread of each step.', [qconc("mpsc_a", "mutex", 2, 2, 1, 1), qconc("mpsc_b", "mutex", 2, 4, 1, 1, 2, 2), qconc("mpsc_c", "mutex", 2, 4, 1, 2, 0, 3)],
     outside='more operations or threads')


def qseq(name, impl, size=0, elem=1, nops=0, rot=0, **kw):
    q = "my_queue_" + impl
    d = {"QOPS": q + "_ops"}
    if size:
        d.update(SIZE=size, ELEM=elem, NOPS=nops, ROT=rot)
        b = "every sequence of %d operations after %d insertions and removals, queue size %d, elements of %d bytes of any content" % (nops, rot, size, elem)
    else:
        d["RANGE"] = 1
        b = "every 32-bit queue size"
    return Job(name, "queue_seq.c", ["libmy/%s.c" % q], d, unwind=4, max_unwind=40, lib_unwind=40,
               rename=["pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock"], bounds=b, **kw)


prop("C19", "Every sequence of operations with symbolic elements is compared with a list.",
     [f("q%s_%s" % (i[1], n), i, *a) for i in ("mb", "mutex") for f, n, a in (
         (qseq, "range", ()), (qseq, "s2", (2, 3, 6, 1)), (qseq, "s4", (4, 2, 9, 3)), (qseq, "s8", (8, 1, 12, 7)), (qseq, "e24", (4, 24, 6, 2)))],
     [qseq("q%s_s8b" % i[1], i, 8, 2, 16, 5) for i in ("mb", "mutex")] + [qseq("q%s_s16" % i[1], i, 16, 1, 20, 15) for i in ("mb", "mutex")],
     outside="element sizes and queue sizes other than those listed; rings of 4 GiB or more")


IOTHR = ["fstrm/iothr.c", "fstrm/time.c", "libmy/my_queue_mb.c", "libmy/my_queue_mutex.c"]
PTHREAD = ["pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_condattr_init",
           "pthread_condattr_destroy", "pthread_condattr_setclock", "pthread_cond_init", "pthread_cond_destroy", "pthread_cond_signal",
           "pthread_cond_broadcast", "pthread_cond_timedwait", "pthread_sigmask", "pthread_create", "pthread_join", "clock_gettime",
           "sigemptyset", "sigaddset", "sigfillset"]


def iothr(name, scripts, unwind=8, **kw):
    d = {"SCRIPTS": ",".join('{"%s","%s","%s"}' % (tuple(x) + ("s", "s"))[:3] for x in scripts)}
    for k in ("NQ", "QSIZE", "OUTQ", "HINT", "MODEL", "NOTIFY", "FLUSH", "REOPEN", "LEN", "MAXLEN", "HEALTHY", "NOW", "EVSET", "ANYW", "BADOPTS", "NULLOPT"):
        if k.lower() in kw:
            d[k] = kw.pop(k.lower())
    d.setdefault("MAXLEN", "0xffffffffu")
    fl = ["--max-field-sensitivity-array-size", "4096"]
    if not kw.pop("times", 0):
        d["NOW"] = 1000
    if kw.pop("paths", 0):
        d["VP_NOFREE"] = 1
        kw.setdefault("own_checks", False)
        fl += ["--paths", "lifo"]
    return Job(name, "iothr.c", IOTHR, d, unwind=unwind, max_unwind=20, lib_unwind=40, object_bits=kw.pop("object_bits", 11), rename=PTHREAD,
               flags=fl,
               bounds="events %s (a b c: submissions, '.' and t: wake-ups, + - *: time passes, X: shutdown), any lengths, any times" % (scripts,), **kw)


def anyio(name, ev, op="?", wr="?", evset="at.+X", **kw):
    return iothr(name, [(ev, op, wr)], len=100, evset='"%s"' % evset, paths=1, **kw)


M, S = "FSTRM_IOTHR_QUEUE_MODEL_MPSC", "FSTRM_IOTHR_QUEUE_MODEL_SPSC"
OUT_IO = ("interleavings inside a queue operation (C17, C18), longer histories, more queues or larger queues; "
          "a thread that keeps state of its own across destroy")
prop("C20", "The I/O thread's real loop runs; submissions, wake-ups, failures and the shutdown happen inside the calls it makes. Ownership of every payload is tracked.",
     [iothr("own_a", [("X",), ("anaX",), (">X",), (">anX",), (">an.X",), (">an.aX",), (">an.t.X",), (">ana.AtX",), (">ana.AX",)], len=100),
      iothr("own_b", [(">X", "f"), (">anX", "f"), (">an.aX", "f"), ("an>an-.a+.aX", "fs")], len=100),
      iothr("own_c", [(">ananX", "s", "f"), (">an.aX", "s", "f"), (">an.at.a+aX", "s", "f"), (">ana.AnX", "s", "sf")], len=100),
      iothr("own_d", [(">abnX",), (">aban.bX", "s", "f"), ("ab>X", "f")], nq=2, model=M, len=100),
      anyio("own_any_a", ">aa??X"), anyio("own_any_c", ">n.??X", evset="nt.+X"), anyio("own_any_d", ">aaa.X", anyw=1),
      iothr("own_len", [(">anX", "s", "s")], paths=1), iothr("own_lenf", [(">aa.aX", "s", "f")], paths=1)],
     [anyio("own_any_b", "aaa>?.?X"), anyio("own_any3", ">???X", timeout=3000), iothr("own_e", [(">aananX", "s", "f"), (">anaana.AtAX", "s", "ssf")], len=100, qsize=8, outq=3),
      iothr("own_len3", [(">ana.aX", "s", "sf")], paths=1, outq=3)], outside=OUT_IO)
prop("C21", "The I/O thread's real loop runs with a writer that accepts everything; every write is compared with the submissions.",
     [iothr("fifo_a", [("aaa>X",), (">aaa.AAX",), (">aa.aaa.aX",)], healthy=1, len=100),
      iothr("fifo_b", [("abab>X",), (">aabb.ABta.X",)], nq=2, outq=3, healthy=1, len=100),
      iothr("fifo_c", [("abcabc>X",), (">cba.ccbaX",)], nq=3, model=M, outq=4, healthy=1, len=100),
      iothr("fifo_d", [("aaa>X",), (">aaa.aaX",)], outq=3, healthy=1, len=508),
      iothr("fifo_e", [("aaa>X",), (">aaa.aaX",)], outq=3, healthy=1, len=507),
      anyio("fifo_any", ">ab??X", nq=2, op="s", wr="s", evset="ab.tX", healthy=1), anyio("fifo_anyw", ">aaaX", op="s", wr="s", anyw=1, healthy=1),
      iothr("fifo_len2", [("aa>X",)], healthy=1, paths=1), iothr("fifo_len3", [("aaa>X",)], healthy=1, paths=1, outq=3),
      iothr("fifo_lenq", [("ab>X",)], healthy=1, paths=1, nq=2, outq=3, model=M)],
     [anyio("fifo_any3", ">ab???X", nq=2, op="s", wr="s", evset="ab.tX", healthy=1), iothr("fifo_f", [("aaaaaaa>X",), (">aaaaaa.AaX",)], qsize=8, outq=5, healthy=1, len=100),
      iothr("fifo_len4", [(">aaa.aX",)], healthy=1, paths=1, outq=3)], outside=OUT_IO)
prop("C22", "The I/O thread's real loop runs with opens and writes that fail as scripted, at symbolic times.",
     [iothr("fail_a", times=1, scripts=[(">a-a.b-.+t.aX", "fs"), (">+.-.aX", "ffs")], nq=2, len=100),
      iothr("fail_b", times=1, scripts=[(">aa.-.a+.aX", "ss", "fs")], len=100),
      iothr("fail_c", [(">aaa.A-t.aX", "sf", "fs")], len=100),
      iothr("fail_d", [("aa>aa.X", "f")], len=100), iothr("fail_d2", [("aa>AX", "f")], len=100),
      anyio("fail_any_b", ">a??.X", evset="at-+X"),
      iothr("fail_len", [(">aa.X", "s", "f")], paths=1)],
     [anyio("fail_any_a", ">aaa??X"), iothr("fail_e", times=1, scripts=[(">a-a.a+a.b-.+t.aX", "ffs", "fs")], nq=2, len=100)], outside=OUT_IO)
prop("C23", "Every value of every setter; and runs of the thread after refused values and with the default options.",
     [Job("opts_range", "iothr_opts.c", ["fstrm/iothr.c", "fstrm/time.c"], {}, unwind=4, bounds="every 32-bit value of each option"),
      iothr("opts_bad", [(">abab.ataX", "s", "s")], nq=2, len=100, paths=1, badopts=1), iothr("opts_badf", [(">ab-+.a.X", "f", "f")], nq=2, len=100, paths=1, badopts=1),
      iothr("opts_null", [(">aa.tX",)], qsize=512, outq=64, hint=8192, notify=32, len=100, nullopt=1)], outside="effects of option values other than those used by the other checks of the I/O thread")


def getq(name, nt, nq, nops, pre=0, **kw):
    j = Job(name, "iothr_getq.c", IOTHR, {"NT": nt, "NQ": nq, "NOPS": nops, "PRE": pre, "VP_CPYMAX": 2, "VP_SHARED": '"iothr_shared.h"'},
            unwind=6, max_unwind=20, lib_unwind=24, rename=PTHREAD + ["pthread_mutex_trylock"], seq=("fstrm/iothr.c", ["fstrm_iothr_get_input_queue"] * nt),
            bounds="%d threads with %d calls each, %d queues, %d handed out before; every interleaving of the memory accesses and lock operations "
            "of the compiled code" % (nt, nops, nq, pre), **kw)
    j.seq_ops = [nops] * nt
    return j


prop("C24", "The function is compiled to LLVM IR on every run and translated to a step machine with one shared memory access or lock operation per step; the solver picks the thread of each step.",
     [getq("getq_a", 2, 2, 1), getq("getq_b", 2, 3, 2), getq("getq_c", 2, 2, 1, 1)], [getq("getq_d", 3, 2, 1)], outside="more threads, calls or queues")
prop("C25", "The I/O thread's real loop runs; queues are filled to their capacity at each point, and symbolic unusable arguments are submitted.",
     [iothr("sub_a", [("aaaa>aaaa.aX",), (">aaaaa.aaaaX",)], outq=4, len=100),
      iothr("sub_b", [("abbb>baaaab.aX",)], nq=2, model=M, outq=4, len=100),
      iothr("sub_c", [("aa>a.X",)], qsize=2, len=100),iothr("sub_z", [("z>az.X",)], qsize=2, len=100, paths=1), iothr("sub_d", [("aaa>aaaa.X",)], notify=2, len=100),
      iothr("sub_len", [("a>X",)], paths=1)],
     [iothr("sub_e", [("aaaaaaaa>X",)], qsize=8, len=100)], outside=OUT_IO)
prop("C26", "The I/O thread's real loop runs; each deadline it sleeps until is compared with the (symbolic) time at which the frames were first left in the output buffer.",
     [iothr("flush_a", times=1, scripts=[(">aa.*.b*.*t.X",)], nq=2, outq=6, len=100), iothr("flush_b", times=1, scripts=[(">a.*t*.b.tX",)], nq=2, outq=3, flush=7, len=100),
      iothr("flush_c", times=1, scripts=[(">*.*a.*a.*a.*a.X",)], outq=3, flush=600, len=100),
      iothr("flush_d", times=1, scripts=[(">*.+a.*at*a.X", "fs", "sf")], flush=2, len=100)],
     [iothr("flush_e", times=1, scripts=[(">*.*a.*a.*a.*a.*at*a*X",)], outq=8, flush=3, len=100)], outside=OUT_IO)


CAP_IO = ["open", "fopen", "fdopen", "close", "fclose", "fflush", "fflush_unlocked", "fwrite", "fwrite_unlocked", "fprintf", "vfprintf", "fputs", "fputc",
          "isatty", "remove", "time", "tzset", "localtime_r", "gmtime_r", "strftime", "sigaction", "sigemptyset", "exit", "strlen"]


def cap(name, scripts, unwind=12, out="-", **kw):
    d = {"SCRIPTS": ",".join('{"%s","%s"}' % (s, out) for s in scripts)}
    for k in ("HW", "NCONN", "MAXC", "SPLIT", "DEBUG", "EVSET", "FAULTS", "SYMCT", "BSIZE", "FSIZE", "FAULT_LO"):
        if k.lower() in kw:
            d[k] = kw.pop(k.lower())
    if "EVSET" in d:
        d["EVSET"] = '"%s"' % d["EVSET"]
    fl = ["--max-field-sensitivity-array-size", "4096"]
    if kw.pop("paths", 0):
        d["VP_NOFREE"] = 1
        kw.setdefault("own_checks", False)
        fl += ["--paths", "lifo"]
    return Job(name, "capture.c", ["src/fstrm_capture.c", "fstrm/control.c"], d, unwind=unwind, max_unwind=kw.pop("max_unwind", 80),
               lib_unwind=300, object_bits=kw.pop("object_bits", 12), rename=CAP_IO, main_rename="cap_main", flags=fl, native_cflags=["-O0"],
               bounds="events %s, output %s, buffer size %s, any content bytes" % (scripts, out, d.get("HW", 48)), **kw)


CAP_READY = ["ow!", "ov!", "oV!", "oS!", "oD!", "oP!", "oF!", "oA!", "ou!", "oz!", "oZ!", "om!"]
CAP_START = ["oR" + c + "!" for c in "xyYDRPFAzm"]
CAP_DATA = ["oRS" + c + "!" for c in "RSFAuz"]
CAP_STOP = ["oRSP" + c + "!" for c in "DSPu"]
prop("C28", "The real program runs from main(); libevent, stdio and the clock are stand-ins; the events are scripted and the answers, the connections and the output are compared with a reference.",
     [cap("cap_ok", ["oRSDP!W", "orsdP.W", "oqSD!E", "oRS!H!P!WX"]), cap("cap_ready1", CAP_READY[:6]), cap("cap_ready2", CAP_READY[6:]),
      cap("cap_start1", CAP_START[:6]), cap("cap_start2", CAP_START[6:]), cap("cap_data", CAP_DATA), cap("cap_stop", CAP_STOP),
      cap("cap_max", ["oMSDP!W"], hw=520, bsize=700), cap("cap_any", ["o?!?!?!"], paths=1, weight=9), cap("cap_any2", ["ors?!?!"], paths=1, evset="SDPF"), cap("cap_unk", ["oru!"], paths=1),
      cap("cap_split1", ["oR/SD!"], paths=1), cap("cap_split2", ["orS/D!"], paths=1), cap("cap_split3", ["orsdP/W"], paths=1), cap("cap_ct", ["oRx!", "ow!"], symct=1, paths=1)],
     outside="other histories; several frames split at the same time")
CAP_X = "The real program runs from main(); libevent, stdio and the clock are stand-ins; every byte written is compared with the reference when it is written."
CAP_OUT = "other histories, more than 3 connections, arguments other than those used; libevent's own behaviour"
prop("C29", CAP_X, [cap("cap_d1", ["oRSDdbBDP!W"], bsize=260, fsize=260), cap("cap_d2", ["ors!BdP.W", "ors!bd.P!"], hw=24), cap("cap_G", ["ors!Gd!B!d!P!", "ors!dGd!P!"], bsize=320),
      cap("cap_l", ["oRS!Dl.d.", "oRS!k.d.", "oRSk!D!", "oRSl!D!", "oRSK!D!", "oRSg!D!"]), cap("cap_2", ["ooRS!0RS!1DD!0d!1b!0DP!1P!W0W"]), cap("cap_3", ["ooo0RS!1RS!2RSd!0DD.1B!0D!1d!X2D!"], nconn=3, bsize=240, fsize=240),
      cap("cap_dsplit", ["ors!Bd/P!"], paths=1, hw=24), cap("cap_dsplit2", ["ors!bd/P!"], paths=1, hw=24), cap("cap_dsplit3", ["ors!DD/P!"], paths=1)],
     [cap("cap_dany", ["ors!???!P!W"], paths=1, hw=24, evset="dbB.!"), cap("cap_gsplit", ["ors!Gd/P!"], paths=1, hw=24, bsize=320)], outside=CAP_OUT)
prop("C30", CAP_X + " Times are symbolic; one output call fails.",
     [cap("cap_r1", ["orsDT!Td!P"], out="f", split=10, paths=1), cap("cap_r2", ["ors!UTd!H"], out="f", split=10, paths=1), cap("cap_u", ["oRSDU!d!UUD!UP!"], out="f"), cap("cap_uo", ["oRSDU!d!HUUD!P!"]),
      cap("cap_f", ["orsD!U!d!P!"], out="f", faults=10, fault_lo=0), cap("cap_f2", ["orsD!d!P!"], faults=6, fault_lo=0)],
     [cap("cap_r3", ["ooors0rs!0DT!1DT!0d!T1d!"], out="f", split=10, paths=1, nconn=3, timeout=2000)], outside=CAP_OUT + "; more than one failing call")
prop("C31", CAP_X + " The state of the listener is compared after every event.",
     [cap("cap_m1", ["ooE0oE", "oXoD!oRSP!W", "oXow!oX"], maxc=1, nconn=3), cap("cap_m2", ["oo1RS!oE0E1"], maxc=2, nconn=3), cap("cap_m3", ["oo0E1Xo"], nconn=3),
      cap("cap_many", ["o???o"], maxc=1, nconn=3, evset="oEw!", paths=1)], outside=CAP_OUT)


PROG_IO = ["fopen", "fread", "fread_unlocked", "feof", "ferror", "fclose", "fflush", "setvbuf", "fputc", "putc", "putchar", "fputs", "puts", "fprintf", "printf",
           "fwrite", "fwrite_unlocked", "exit", "strlen", "inet_pton", "strtoul"]


def prg(name, prog, runs, faults=(("NONE", 0, 0),), paths=0, **kw):
    """runs: (files, output file / TCP)"""
    d = {"RUNS": ",".join('{"%s",%d}' % r for r in runs), "FAULTS": ",".join("{%s,%d,%d}" % f for f in faults)}
    if prog == "dump":
        d["DUMP"] = 1
    for k in ("PRINT", "SYMCT", "FSIZE", "CTL"):
        if k.lower() in kw:
            d[k] = kw.pop(k.lower())
    fl = ["--max-field-sensitivity-array-size", "4096"]
    if paths:
        d["VP_NOFREE"] = 1
        kw.setdefault("own_checks", False)
        fl += ["--paths", "lifo"]
    return Job(name, "prog.c", ["src/fstrm_%s.c" % prog, "fstrm/reader.c", "fstrm/writer.c", "fstrm/rdwr.c", "fstrm/control.c", "fstrm/file.c"], d,
               unwind=kw.pop("unwind", 8), max_unwind=kw.pop("max_unwind", 50), lib_unwind=300, object_bits=kw.pop("object_bits", 12), rename=PROG_IO,
               main_rename="prog_main", flags=fl, native_cflags=["-O0"],
               bounds="input files %s, any content bytes, failing call %s" % ([r[0] for r in runs], list(faults)), **kw)


PRG_X = "The real program runs from main() with the real reader, writer and file transport; stdio and sockets are stand-ins; every byte written is compared with the input."
DUMP_F = [("FREAD", 1, 11), ("FWRITE", 1, 8), ("FOPENW", 1, 1), ("FCLOSEW", 1, 1)]
prop("C33", PRG_X, [prg("dump_a", "dump", [("o12p", 1), ("sp", 1), ("k1p", 1), ("yu2c1p", 1), ("obp", 1), ("o1p", 0)]),
                    prg("dump_b", "dump", [(f, o) for f in ("o1", "o1t", "oh", "o2z", "s1Z", "m", "q1p", "o1p2p") for o in (0, 1)]),
                    prg("dump_f", "dump", [("o12p", 1)], DUMP_F), prg("dump_f0", "dump", [("s1p", 0)], DUMP_F[:1])], outside="other inputs; errors of standard output")
prop("C35", PRG_X, [prg("print_a", "dump", [("s11p", 0)], paths=1, print=1), prg("print_b", "dump", [("o2p", 1)], paths=1, print=1)],
     [prg("print_c", "dump", [("s3p", 0)], paths=1, print=1, timeout=2000)], outside="other lengths, locales other than C")
RPL_F = [("NOPEN", 1, 1), ("NREAD", 1, 6), ("NWRITE", 1, 5)]
prop("C34", PRG_X, [prg("replay_a", "replay", [("o12p", 0), ("o1p s2p", 1), ("x1p o2p", 0), ("o1p y2p o3p", 1), ("m o1p", 0), ("k1p o1p", 1)]),
                    prg("replay_b", "replay", [("o1t o2p", 0), ("q1p o1p", 1), ("o1z s2", 0), ("oh o1p", 1), ("ou1c2p xx", 0), ("o1p2p ob", 1)]),
                    prg("replay_f", "replay", [("o1p s2p", 1)], RPL_F), prg("replay_fr", "replay", [("o12p", 0)], [("FREAD", 1, 11), ("NCLOSE", 1, 1)]),
                    prg("replay_ct1", "replay", [("x1p o2p", 0)], paths=1, symct=1), prg("replay_ct3", "replay", [("o1p y1p x2p", 1)], paths=1, symct=3)],
     outside="other inputs; arguments that are refused; the socket transports (C13 to C15)")
