"""The ZDO operations in scope: zigpy's form and the equivalent MT command."""
import zigpy.types as zt
import zigpy.zdo.types as zz
from harness import mt

CMD = zz.ZDOCmd


def multi(d):
    a = zz.MultiAddress()
    if d.bool(0.35):
        a.addrmode, a.nwk = 1, d.u16()
    else:
        a.addrmode, a.ieee, a.endpoint = 3, zt.EUI64(d.eui()), d.u8()
    return a


def ids(d, most):
    return [zt.uint16_t(d.u16()) for _ in range(d.int(0, most))]


def gen(d, nwk, ops=None):
    """(operation, zigpy command, zigpy args, MT command, MT fields)."""
    op = d.choice(ops or OPS)
    interest = nwk if d.bool(0.8) else d.u16()
    base = {"dstaddr": nwk, "nwkaddrofinterest": interest}
    if op in ("node", "power", "eps"):
        c, m = {"node": (CMD.Node_Desc_req, "nodeDescReq"),
                "power": (CMD.Power_Desc_req, "powerDescReq"),
                "eps": (CMD.Active_EP_req, "activeEpReq")}[op]
        return op, c, (interest,), m, base
    if op == "simple":
        ep = d.u8()
        return op, CMD.Simple_Desc_req, (interest, ep), "simpleDescReq", dict(
            base, endpoint=ep)
    if op == "match":
        p, i, o = d.u16(), ids(d, 8), ids(d, 8)
        return op, CMD.Match_Desc_req, (interest, p, i, o), "matchDescReq", dict(
            base, profileid=p, numinclusters=len(i), inclusterlist=i,
            numoutclusters=len(o), outclusterlist=o)
    if op in ("bind", "unbind"):
        src, ep, cl, dst = d.eui(), d.u8(), d.u16(), multi(d)
        c = CMD.Bind_req if op == "bind" else CMD.Unbind_req
        f = {"dstaddr": nwk, "srcaddr": src, "srcendpoint": ep, "clusterid": cl,
             "dstaddrmode": dst.addrmode}
        if dst.addrmode == 3:
            f.update(dstaddress=dst.ieee.serialize(), dstendpoint=dst.endpoint)
        else:
            f.update(dstaddress=dst.nwk.to_bytes(8, "little"), dstendpoint=None)
        return op, c, (zt.EUI64(src), ep, cl, dst), op + "Req", f
    if op in ("lqi", "rtg"):
        s = d.u8()
        c, m = {"lqi": (CMD.Mgmt_Lqi_req, "mgmtLqiReq"),
                "rtg": (CMD.Mgmt_Rtg_req, "mgmtRtgReq")}[op]
        return op, c, (s,), m, {"dstaddr": nwk, "startindex": s}
    if op == "leave":
        who, opt = d.eui(), d.u8()
        return op, CMD.Mgmt_Leave_req, (zt.EUI64(who), opt), "mgmtLeaveReq", {
            "dstaddr": nwk, "deviceaddress": who, "removechildrenRejoin": opt}
    if op == "permit":
        t, s = d.u8(), d.int(0, 1)
        return op, CMD.Mgmt_Permit_Joining_req, (t, s), "mgmtPermitJoinReq", {
            "addrmode": 2, "dstaddr": nwk, "duration": t, "tcsignificance": s}
    raise ValueError(op)


OPS = ("node", "power", "simple", "eps", "match", "bind", "unbind", "lqi", "rtg",
       "leave", "permit")


def same(req, name, fields):
    """The coordinator received exactly this operation (None: any value)."""
    if req.typ != mt.SREQ or req.key != ("ZDO", name):
        return False
    try:
        v = req.v
    except mt.Short:
        return False
    fixed = dict(fields)
    for k, x in fields.items():
        if x is None:
            fixed[k] = v[k]
    return req.payload == mt.encode(req.cmd.request, fixed)
