"""Netlist lines with something wrong in them, for C11: each field missing, surplus or of another form."""
# name: (lines around it, the well-formed line)
NODES = ["l1 a 0 1m", "l2 b 0 1m", "v1 a 0 type=vdc vdc=1"]
MODELS = [".model diode dm is=1n", ".model ekv nm type=n", ".model mosq qm type=n", ".model sw sm vt=1"]
SUB = [".subckt cell p q", "r1 p q 1k", ".ends"]
LINES = {
 "resistor": ([], "r1 a b 1k"), "capacitor": ([], "c1 a b 1p ic=1"), "inductor": ([], "l3 a b 1n ic=1"), "coupling": (NODES, "k1 l1 l2 k=.5"),
 "voltage source": ([], "v2 a b type=vdc vdc=1"), "voltage source, ac": ([], "v2 a b vdc=1 vac=1"), "voltage source, pulse": ([], "v2 a b type=pulse 0 1 0 1 1 4 9"),
 "voltage source, named pulse": ([], "v2 a b type=pulse v1=0 v2=1 td=0 tr=1 pw=1 tf=4 per=9"), "voltage source, sin": ([], "v2 a b type=sin 0 1 1k"), "voltage source, exp": ([], "v2 a b type=exp 0 1 1 2 3 4"),
 "voltage source, sffm": ([], "v2 a b type=sffm 0 1 1k 1 1k"), "voltage source, am": ([], "v2 a b type=am 1 1 1k 1k 0"),
 "current source": ([], "i2 a b type=idc idc=1"), "current source, ac": ([], "i2 a b idc=1 iac=1"), "current source, sin": ([], "i2 a b type=sin 0 1 1k"),
 "vcvs": ([], "e1 a b c d 2"), "vccs": ([], "g1 a b c d 2"), "ccvs": (NODES, "h1 a b v1 2"), "cccs": (NODES, "f1 a b v1 2"),
 "diode": (MODELS, "d1 a b dm area=2 t=20 ic=1 off=0"), "mos": (MODELS, "m1 a b c d nm w=1u l=1u m=1 n=1"), "quadratic mos": (MODELS, "m1 a b c d qm w=1u l=1u"), "switch": (MODELS, "s1 a b c d sm"),
 "instance": (SUB, "x1 p=a q=b name=cell"), "subcircuit": ([], ".subckt other p q"), "end of a subcircuit": (SUB, ".ends"),
 "diode model": ([], ".model diode d2 is=1n n=1"), "mos model": ([], ".model ekv n2 type=n kp=1 vto=1"), "quadratic mos model": ([], ".model mosq q2 type=n kp=1 vto=1"), "switch model": ([], ".model sw s2 vt=1 vh=1 ron=1 roff=9"),
 ".op": (NODES, ".op guess=1 ic=x1"), ".dc": (NODES, ".dc v1 lin 1 2 3"), ".dc, named": (NODES, ".dc source=v1 start=0 stop=2 step=1 type=lin"), ".ac": (NODES, ".ac dec 10 1 9"), ".ac, named": (NODES, ".ac type=lin nsteps=10 start=1 stop=9"),
 ".tran": (NODES, ".tran 1n 9n"), ".tran, named": (NODES, ".tran tstep=1n tstop=9n tstart=0 uic=1 method=gear"), ".pss": (NODES, ".pss period=1 points=10 method=shooting"), ".symbolic": (NODES, ".symbolic tf=v1 ac=1 r0s=0"),
 ".pz": (NODES, ".pz v(a) v1 0"), ".ic": (NODES, ".ic name=x1 v(a)=1 i(v1)=2"), ".temp": (NODES, ".temp 27"), ".plot": (NODES + [".tran 1n 9n"], ".plot tran v(a) i(v1)"), ".four": (NODES + [".tran 1n 9n"], ".four 1k v(a)"),
 ".fft": (NODES + [".tran 1n 9n"], ".fft v(a) start=0 stop=1 np=64 format=unorm window=rect"), ".include": ([], ".include other.ckt"), ".end": (NODES, ".end"),
}
JUNK = ("zz", "q=1", "=1", "a=b=c")

def wrong(line):
    """(what is wrong, line)"""
    t = line.split()
    yield "", line
    for i in range(1, len(t)): yield "cut after field %d" % i, " ".join(t[:i])
    for i in range(1, len(t) - 1): yield "field %d missing" % (i + 1), " ".join(t[:i] + t[i + 1:])
    for i in range(1, len(t)):
        for j in JUNK: yield "field %d is %s" % (i + 1, j), " ".join(t[:i] + [j] + t[i + 1:])
        if "=" in t[i]:
            yield "field %d without a value" % (i + 1), " ".join(t[:i] + [t[i].split("=")[0] + "="] + t[i + 1:])
            yield "field %d not a number" % (i + 1), " ".join(t[:i] + [t[i].split("=")[0] + "=zz"] + t[i + 1:])
    for j in JUNK[:3] + ("1", t[-1]): yield "followed by %s" % j, line + " " + j

OTHERS = {
 "unknown element": ["q1 a b c"], "unknown directive": [".nosuch 1 2"], "empty directive": ["."], "continuation first": ["+ a b 1"], "subcircuit in a subcircuit": [".subckt u p", ".subckt w q", ".ends", ".ends"],
 "subcircuit not closed": [".subckt u p", "r1 p 0 1"], "subcircuit defined twice": SUB + SUB, "instance of nothing": ["x1 p=a q=b name=nosuch"], "instance without a port": SUB + ["x1 p=a name=cell"],
 "instance with another port": SUB + ["x1 p=a q=b z=c name=cell"], "wrong line in a subcircuit": [".subckt u p", "r1 p", ".ends", "x1 p=a name=u"], "unknown model in a subcircuit": [".subckt u p", "d1 p 0 nosuch", ".ends", "x1 p=a name=u"],
 "controlling source missing": ["f1 a b vnosuch 2"], "inductor missing": ["k1 l1 l2 k=.5"], "model of another kind": MODELS + ["d1 a b nm"], "diode model for a mos": MODELS + ["m1 a b c d dm w=1 l=1"], "mos model for a switch": MODELS + ["s1 a b c d nm"],
 "same name twice": ["r1 a b 1k", "r1 b c 1k"], "names alone": ["r", "r1", "v", "x"], "comment alone": ["* nothing"], "model without a type": [".model"], "unknown kind of model": [".model nosuch m1 a=1"], "ic without a name": [".ic v(a)=1"], "postprocessing of nothing": [".plot tran v(a)"],
}
