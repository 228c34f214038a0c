"""Node variable service."""
from common import *


def run(c):
    L = c.lib()
    cls = "NodeVariableService"
    for cls in [k.split("::")[-1] for k in L.services() if L.w.is_a(k, NS + "NodeVariableService")]:
        nv(c, L, cls)


def nv(c, L, cls):
    sid = svc_id(L, "NodeVariableService")
    NUM = L.cfg("EE_NUM_NVS")
    START = zext(L.cfg("EE_NVS_START"), 64)
    idx = D[3]
    addr = sub(add(START, zext(idx, 64)), C64(1))
    INV_NV, INV_CMD = enumval(L.w, "VlcbCmdErrs", "CMDERR_INV_NV_IDX"), enumval(L.w, "VlcbCmdErrs", "CMDERR_INV_CMD")
    NVANS = 0x97

    def inr(env):
        env.assume(ult(K(0), idx))
        env.assume(ult(NUM, idx), False)

    def outr(env):
        env.assume(ult(NUM, idx))

    def zero(env):
        env.assume(eq(idx, K(0)))
    reject = lambda op: Expect(msgs=[AnyOrder([grsp(op, sid, INV_NV), cmderr(INV_NV)])])
    old = L.I.load(L.state(), EE, addr, 1)
    for op, need in ((0x71, 4), (0x96, 5), (0x8E, 5)):
        verify(c, Ctx(c, L, cls, op=op, nn="own", ln=list(range(3, need))), Expect(msgs=[grsp(op, sid, INV_CMD)]), "short request refused")
        verify(c, Ctx(c, L, cls, op=op, nn="own", ln=list(range(need, 9)), pre=outr), reject(op), "index above the number of NVs refused")
        verify(c, Ctx(c, L, cls, op=op, nn="other"), Expect(), "another node's request ignored")
    full = dict(nn="own", ln=list(range(5, 9)))
    verify(c, Ctx(c, L, cls, op=0x71, pre=inr, nn="own", ln=list(range(4, 9))), Expect(msgs=[[NVANS, NNHI, NNLO, idx, old]]), "read answers stored value")
    verify(c, Ctx(c, L, cls, op=0x71, pre=zero, nn="own", ln=list(range(4, 9))),
           Expect(msgs=[[NVANS, NNHI, NNLO, 0, NUM],
                        Each(lambda i: [NVANS, NNHI, NNLO, i, L.I.load(L.state(), EE, sub(add(START, zext(i, 64)), C64(1)), 1)], 1, last=NUM)]),
           "index 0 reads the count and every NV")
    verify(c, Ctx(c, L, cls, op=0x96, pre=inr, **full), Expect(msgs=[WRACK], store={addr: D[4]}), "write stores exactly that NV and acknowledges")
    verify(c, Ctx(c, L, cls, op=0x96, pre=zero, **full), reject(0x96), "index 0 cannot be written", key="NVSET-index-0")
    verify(c, Ctx(c, L, cls, op=0x8E, pre=inr, **full), Expect(msgs=[[NVANS, NNHI, NNLO, idx, D[4]]], store={addr: D[4]}), "write-and-read stores and reports the new value")
    verify(c, Ctx(c, L, cls, op=0x8E, pre=zero, **full), reject(0x8E), "index 0 cannot be written", key="NVSETRD-index-0")
    # every other message leaves NVs alone
    other = [o for o in range(256) if o not in (0x71, 0x96, 0x8E)]
    verify(c, Ctx(c, L, cls, op=other), Expect(), "no other message touches NVs")
    for k in (OUT, CANENUM, CHMODE, RENEG, IACT, IMODE, None):
        verify(c, Ctx(c, L, cls, kind=k), Expect(), "no other action touches NVs")


if __name__ == "__main__":
    main(run, "P05", "x", 10)
