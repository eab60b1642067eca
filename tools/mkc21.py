#!/usr/bin/env python3
"""Writes harness/src/bin/c21/orders.rs: one constructor per order of builder calls.
   p protocol, f frequency, m clock type, n pin, r remote (after the protocol, which sets the
   command type); capitals: an earlier call of the same kind that the later one overrides."""
from itertools import permutations
import os
def twice(os_, c, C):
    r=[]
    for o in os_:
        for i in range(o.index(c)+1): r.append(o[:i]+C+o[i:])
    return r
def perms(s, dup=False):
    b=["".join(p) for p in permutations(s)]
    b=[o for o in b if 'r' not in o or o.index('r')>o.index('p')]
    o=list(b)
    if dup:
        for c,C in (('f','F'),('p','Q'),('m','M'),('n','W')):
            if c in s: o+=twice(b,c,C)
    return sorted(set(o))
CALL={'p':'.protocol::<P>()','f':'.frequency(f)','m':'.monotonic::<M>()','n':'.pin(Pin::new(7))',
      'r':'.remotecontrol(R::default())','F':'.frequency(f / 2 + 1)','Q':'.protocol::<Other>()',
      'M':'.monotonic::<u64>()','W':'.pin(Wrong)'}
out=["// written by tools/mkc21.py\nuse super::*;\n"]
def table(name, orders, gen, where, ret, fin):
    out.append(f"pub fn {name}<{gen}>() -> Vec<(&'static str, fn(u32) -> {ret})>\nwhere {where} {{\n    vec![\n")
    for o in orders:
        chain="".join(CALL[c] for c in o)
        arg = "f" if 'f' in o or 'F' in o else "_"
        out.append(f'        ("{o}", |{arg}| infrared::receiver(){chain}.{fin}()),\n')
    out.append("    ]\n}\n")
W0="P: Pr"
WM="P: Pr + DecoderBuilder<M>, M: InfraMonotonic"
for k,dup in (('pf',1),('p',0)):
    table("rx_"+k, perms(k,dup), "P", W0, "Receiver<P>", "build")
for k,dup in (('pfm',1),('pm',0)):
    table("rx_"+k, perms(k,dup), "P, M", WM, "Receiver<P, NoPin, M, <P as Protocol>::Cmd>", "build")
for k,dup in (('pfn',1),('pn',0)):
    table("rx_"+k, perms(k,dup), "P", W0, "Receiver<P, Pin>", "build")
for k,dup in (('pfmn',1),('pmn',0)):
    table("rx_"+k, perms(k,dup), "P, M", WM, "Receiver<P, Pin, M, <P as Protocol>::Cmd>", "build")
WR="P: Pr, R: RemoteControlModel<Cmd = <P as Protocol>::Cmd>"
table("rx_pfr", perms("pfr"), "P, R", WR, "Receiver<P, NoPin, u32, Button<R>>", "build")
table("rx_pfnr", perms("pfnr"), "P, R", WR, "Receiver<P, Pin, u32, Button<R>>", "build")
table("rx_pfmnr", perms("pfmnr"), "P, R, M", WM+", R: RemoteControlModel<Cmd = <P as Protocol>::Cmd>", "Receiver<P, Pin, M, Button<R>>", "build")
for k,dup in (('pf',1),('p',0)):
    table("po_"+k, perms(k,dup), "P", W0, "PeriodicPoll<P>", "build_polled")
for k,dup in (('pfn',1),('pn',0)):
    table("po_"+k, perms(k,dup), "P", W0, "PeriodicPoll<P, Pin>", "build_polled")
table("po_pfm", perms("pfm"), "P, M", WM, "PeriodicPoll<P>", "build_polled")
table("po_pfmn", perms("pfmn"), "P, M", WM, "PeriodicPoll<P, Pin>", "build_polled")
table("po_pfnr", perms("pfnr"), "P, R", WR, "PeriodicPoll<P, Pin, Button<R>>", "build_polled")
# named protocol methods
for meth,ty in (("nec","Nec"),("nec16","Nec16"),("nec_samsung","SamsungNec"),("nec_apple","AppleNec"),("rc5","Rc5"),
                ("rc6","Rc6"),("samsung_bluray","Sbp"),("denon","Denon")):
    for k,ret,fin in (("pf","Receiver<%s>","build"),("pfn","Receiver<%s, Pin>","build"),("pf","PeriodicPoll<%s>","build_polled"),("pfn","PeriodicPoll<%s, Pin>","build_polled")):
        out.append(f"pub fn named_{meth}_{k}_{fin}() -> Vec<(&'static str, fn(u32) -> {ret%ty})> {{\n    vec![\n")
        for o in perms(k):
            chain="".join(f".{meth}()" if c=='p' else CALL[c] for c in o)
            out.append(f'        ("{meth}: {o}", |f| infrared::receiver(){chain}.{fin}()),\n')
        out.append("    ]\n}\n")
os.makedirs("/verif/harness/src/bin/c21",exist_ok=True)
open("/verif/harness/src/bin/c21/orders.rs","w").write("".join(out))
