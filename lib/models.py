"""Models that combine many features, and analyses ("letters") to run on them."""


def dist(name, kind="lognormal"):
    body = {
        "lognormal": "<lognormal-deviate><float value='0.01'/><float value='3'/><float value='0.95'/></lognormal-deviate>",
        "uniform": "<uniform-deviate><float value='0.05'/><float value='0.2'/></uniform-deviate>",
        "shared": "<exponential><parameter name='rate'/><system-mission-time/></exponential>",
        "half": "<float value='0.5'/>", "small": "<float value='0.02'/>",
        "weibull": "<Weibull><float value='300'/><float value='2'/><float value='0'/><system-mission-time/></Weibull>",
        "periodic": "<periodic-test><parameter name='rate'/><float value='40'/><float value='7'/><system-mission-time/></periodic-test>",
        "mix": "<mul><parameter name='share'/><uniform-deviate><float value='0.1'/><float value='0.4'/></uniform-deviate></mul>",
        "normal": "<normal-deviate><float value='0.5'/><float value='0.05'/></normal-deviate>",
        "lognormal2": "<lognormal-deviate><float value='-3'/><float value='0.25'/></lognormal-deviate>",
        "gamma": "<mul><gamma-deviate><float value='1.5'/><float value='0.5'/></gamma-deviate><float value='0.01'/></mul>",
        "beta": "<beta-deviate><float value='2'/><float value='3'/></beta-deviate>",
        "histogram": "<histogram><float value='0'/><bin><float value='0.25'/><float value='1'/></bin><bin><float value='0.5'/>"
                     "<float value='3'/></bin></histogram>",
    }[kind]
    return "<define-basic-event name='%s'>%s</define-basic-event>" % (name, body)


PARAMETERS = """<define-parameter name='rate' unit='hours-1'><lognormal-deviate><float value='0.001'/><float value='2'/><float value='0.9'/></lognormal-deviate></define-parameter>
<define-parameter name='share' unit='float'><mul><parameter name='base'/><float value='0.5'/></mul></define-parameter>
<define-parameter name='base' unit='float'><uniform-deviate><float value='0.3'/><float value='0.9'/></uniform-deviate></define-parameter>"""


def data(kinds, houses=""):
    return "<model-data>%s%s%s</model-data>" % (
        "".join(dist(n, k) for n, k in kinds.items()),
        "".join("<define-house-event name='%s'><constant value='%s'/></define-house-event>" % (
            h.strip("~"), "false" if h[0] == "~" else "true") for h in houses.split()),
        PARAMETERS)


def gate(name, body):
    return "<define-gate name='%s'>%s</define-gate>" % (name, body)


def op(tag, *args):
    def arg(a):
        if a[0] == "~":
            return "<not>%s</not>" % arg(a[1:])
        return "<gate name='%s'/>" % a if a[0] in "GT" else "<event name='%s'/>" % a
    return "<%s>%s</%s>" % (tag, "".join(map(arg, args)), tag.split()[0])


ABCDEF = {"a": "lognormal", "b": "uniform", "c": "shared", "d": "half", "e": "mix", "f": "small"}
SUB = ("<define-substitution name='%s'><hypothesis>%s</hypothesis>%s<target>%s</target></define-substitution>")
SUBS = "<opsa-mef>%%s<define-fault-tree name='ft'>%s</define-fault-tree>%s</opsa-mef>" % (
    gate("T", op("or", "G1", "G2")) + gate("G1", op("and", "a", "G3")) + gate("G2", op("and", "b", "c")) +
    gate("G3", op("or", "b", "c", "d")), data(ABCDEF))

MODELS = {
    # Several top events, nested components, shared gates and shared random parameters.
    "tops": "<opsa-mef><define-fault-tree name='one'>%s<define-component name='k'>%s</define-component></define-fault-tree>"
            "<define-fault-tree name='two'>%s</define-fault-tree>%s</opsa-mef>" % (
                gate("T1", op("or", "G1", "c")) + gate("T2", op("and", "G1", "b")) +
                gate("G1", op("or", "a", "d")) + gate("T4", op("or", "e", "f")) +
                gate("T5", op("and", "e", "a", "c")),
                gate("T3", op("atleast min='2'", "a", "b", "e")) + gate("T6", op("or", "b", "f")),
                gate("U1", op("and", "c", "e")) + gate("U2", op("or", "b", "~c")) +
                gate("U3", op("xor", "a", "e")), data(ABCDEF)),
    "ccf": "<opsa-mef><define-fault-tree name='ft'>%s"
           "<define-CCF-group name='m' model='MGL'><members><basic-event name='x'/><basic-event name='y'/><basic-event name='z'/></members>"
           "<distribution><uniform-deviate><float value='0.05'/><float value='0.2'/></uniform-deviate></distribution>"
           "<factors><factor level='2'><float value='0.2'/></factor><factor level='3'><parameter name='share'/></factor></factors></define-CCF-group>"
           "<define-CCF-group name='n' model='beta-factor'><members><basic-event name='u'/><basic-event name='v'/></members>"
           "<distribution><exponential><parameter name='rate'/><system-mission-time/></exponential></distribution>"
           "<factors><factor level='2'><float value='0.1'/></factor></factors></define-CCF-group>"
           "</define-fault-tree>%s</opsa-mef>" % (
               gate("T", op("or", "G1", "G2", "a")) + gate("G1", op("atleast min='2'", "x", "y", "z")) +
               gate("G2", op("and", "u", "v")) + gate("T2", op("and", "x", "u", "~a")), data({"a": "mix"})),
    "events": """<opsa-mef><define-initiating-event name='I' event-tree='T'/><define-initiating-event name='J' event-tree='T'/><define-initiating-event name='K' event-tree='E'/>
<define-event-tree name='T'><define-functional-event name='F'/><define-functional-event name='H'/><define-sequence name='S1'/><define-sequence name='S2'/><define-sequence name='S3'/>
<initial-state><fork functional-event='F'>
<path state='good'><collect-formula><not><gate name='ft.G1'/></not></collect-formula><sequence name='S1'/></path>
<path state='bad'><set-house-event name='h'><constant value='true'/></set-house-event><collect-formula><gate name='ft.G1'/></collect-formula>
<fork functional-event='H'><path state='good'><if><test-initiating-event name='I'/><collect-formula><basic-event name='d'/></collect-formula></if>
<collect-formula><not><gate name='ft.G2'/></not></collect-formula><sequence name='S2'/></path>
<path state='bad'><if><test-functional-event name='F' state='bad'/><collect-formula><basic-event name='e'/></collect-formula></if>
<collect-formula><gate name='ft.G2'/></collect-formula><sequence name='S3'/></path></fork></path>
</fork></initial-state></define-event-tree>
<define-event-tree name='E'><define-functional-event name='F2'/><define-sequence name='Q1'/><define-sequence name='Q2'/>
<initial-state><fork functional-event='F2'><path state='good'><collect-expression><sub><float value='1'/><parameter name='share'/></sub></collect-expression><sequence name='Q1'/></path>
<path state='bad'><collect-expression><parameter name='share'/></collect-expression><if><test-initiating-event name='K'/><collect-expression><parameter name='base'/></collect-expression></if><sequence name='Q2'/></path></fork></initial-state></define-event-tree>
<define-fault-tree name='ft'>%s%s</define-fault-tree>%s</opsa-mef>""" % (
        gate("G1", op("or", "a", "G3")) + gate("G3", op("and", "h", "b")) + gate("G2", op("or", "c", "b")) +
        gate("T9", op("and", "G1", "G2")), "",
        data({"a": "shared", "b": "uniform", "c": "small", "d": "mix", "e": "half"}, "~h")),
    "phases": """<opsa-mef><define-alignment name='A'><define-phase name='p' time-fraction='0.25'><set-house-event name='h'><constant value='true'/></set-house-event></define-phase>
<define-phase name='q' time-fraction='0.75'><set-house-event name='k'><constant value='false'/></set-house-event></define-phase></define-alignment>
<define-fault-tree name='ft'>%s</define-fault-tree>%s</opsa-mef>""" % (
        gate("T", op("or", "G1", "G2")) + gate("G1", op("and", "h", "a")) + gate("G2", op("and", "k", "b", "~c")) +
        gate("T2", op("or", "G1", "d")),
        data({"a": "shared", "b": "weibull", "c": "uniform", "d": "periodic"}, "~h k")),
    "deleted": SUBS % (
        SUB % ("del", op("and", "a", "b"), "", "<constant value='false'/>") +
        SUB % ("most", op("atleast min='2'", "c", "d", "e"), "", "<constant value='false'/>")),
    "replaced": SUBS % (
        SUB % ("recovery", op("and", "b", "c"), "", "<basic-event name='f'/>") +
        SUB % ("swap", "<event name='d'/>", "<source><basic-event name='c'/></source>", "<basic-event name='e'/>")),
    "logic": "<opsa-mef><define-fault-tree name='ft'>%s</define-fault-tree>%s</opsa-mef>" % (
        gate("T", op("xor", "G1", "~G2")) + gate("G1", op("atleast min='2'", "a", "b", "G3")) +
        gate("G2", op("iff", "c", "G3")) + gate("G3", op("nand", "d", "~a", "h")) +
        gate("T2", op("imply", "G1", "e")) + gate("T3", op("nor", "G2", "G3", "f")),
        data(ABCDEF, "h")),
}
# Every random deviate alone, then with others: in an odd number of gates, since some are made in pairs.
DEVIATES = {"a": "normal", "b": "lognormal", "c": "lognormal2", "d": "gamma", "e": "beta", "f": "histogram", "g": "uniform"}
MODELS["deviates"] = "<opsa-mef><define-fault-tree name='ft'>%s</define-fault-tree>%s</opsa-mef>" % (
    "".join(gate("T%d" % i, "<event name='%s'/>" % e) for i, e in enumerate("abcdefg")) +
    gate("T7", op("and", *"abcdefg")) + gate("T9", op("or", *"abcdefg")), data(DEVIATES))
FILES = {"chinese": "Chinese/chinese.xml Chinese/chinese-basic-events.xml", "lift": "Lift/lift.xml", "bscu": "BSCU/BSCU.xml",
         "hipps": "HIPPS/HIPPS.xml", "theatre": "Theatre/theatre.xml", "bcd": "EventTrees/bcd.xml",
         "attack": "EventTrees/attack.xml", "gas": "EventTrees/gas_leak/gas_leak.xml EventTrees/gas_leak/gas_leak_reactive.xml"}

PU = "prob=1 unc=1 trials=12 bins=3 quantiles=4"
LETTERS = [
    "alg=bdd prob=1",
    "alg=zbdd prob=1 imp=1",
    "alg=mocus approx=rare-event prob=1 imp=1",
    "alg=bdd pi=1 prob=1",
    "alg=bdd imp=1 seed=1 " + PU,
    "alg=mocus approx=mcub seed=7 " + PU,
    "alg=bdd ccf=1 imp=1 seed=2 " + PU,
    "alg=bdd prob=1 T=100 step=30 sil=1",
    "alg=zbdd limit=1 T=3 prob=1",
    "kind=serialize",
    "kind=load alg=mocus ccf=1 T=50 seed=3 " + PU,
]
# Pairs that only the library offers, and more of the same in depth.
MORE = [
    "alg=zbdd ccf=1",
    "alg=mocus prob=1 imp=1",
    "alg=zbdd limit=2 prob=1 imp=1",
    "alg=bdd T=2000 ccf=1 prob=1 step=900 sil=1",
    "alg=zbdd approx=mcub seed=11 " + PU,
    "alg=mocus limit=0",
    "alg=bdd seed=5 prob=1 unc=1 trials=7 bins=2 quantiles=2",
]
