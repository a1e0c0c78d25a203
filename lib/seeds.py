"""Small models that between them use every construct of the input format."""

TREE = """<opsa-mef name='m'><label>model</label><attributes><attribute name='k' value='v' type='t'/></attributes>
<define-fault-tree name='ft'><label>tree</label>
<define-gate name='top' role='public'><or><gate name='g1'/><gate name='c.g2'/><not><event name='h'/></not></or></define-gate>
<define-gate name='g1'><atleast min='2'><basic-event name='a'/><basic-event name='b'/><house-event name='h'/></atleast></define-gate>
<define-component name='c' role='private'><define-gate name='g2'><and><event name='a'/><basic-event name='d'/></and></define-gate>
<define-basic-event name='d'><float value='0.2'/></define-basic-event><define-parameter name='p'><float value='0.3'/></define-parameter></define-component>
<define-house-event name='h'><constant value='true'/></define-house-event></define-fault-tree>
<model-data><define-basic-event name='a'><float value='0.1'/></define-basic-event>
<define-basic-event name='b'><label>b</label><parameter name='ft.c.p'/></define-basic-event></model-data></opsa-mef>"""

LOGIC = """<opsa-mef><define-fault-tree name='ft'>
<define-gate name='g0'><xor><gate name='g1'/><gate name='g2'/></xor></define-gate>
<define-gate name='g1'><nand><event name='a'/><event name='b'/></nand></define-gate>
<define-gate name='g2'><imply><gate name='g3'/><gate name='g4'/></imply></define-gate>
<define-gate name='g3'><iff><event name='a'/><event name='c'/></iff></define-gate>
<define-gate name='g4'><cardinality min='1' max='2'><event name='a'/><event name='b'/><event name='c'/></cardinality></define-gate>
<define-gate name='g5'><nor><gate name='g0'/><constant value='false'/></nor></define-gate>
<define-gate name='g6'><not><gate name='g5'/></not></define-gate>
</define-fault-tree>
<model-data><define-basic-event name='a'><float value='0.1'/></define-basic-event><define-basic-event name='b'><float value='0.2'/></define-basic-event>
<define-basic-event name='c'><float value='0.3'/></define-basic-event></model-data></opsa-mef>"""

CCF = """<opsa-mef><define-fault-tree name='ft'>
<define-gate name='g'><or><event name='a'/><event name='b'/><event name='c'/><gate name='k'/></or></define-gate>
<define-gate name='k'><and><event name='d'/><event name='e'/></and></define-gate>
<define-CCF-group name='m' model='MGL'><members><basic-event name='a'/><basic-event name='b'/><basic-event name='c'/></members>
<distribution><float value='0.1'/></distribution><factors><factor level='2'><float value='0.2'/></factor><factor level='3'><float value='0.3'/></factor></factors></define-CCF-group>
<define-CCF-group name='n' model='beta-factor'><members><basic-event name='d'/><basic-event name='e'/></members>
<distribution><exponential><float value='0.001'/><system-mission-time/></exponential></distribution><factor level='2'><float value='0.2'/></factor></define-CCF-group>
</define-fault-tree></opsa-mef>"""

EXPRESSIONS = """<opsa-mef><define-fault-tree name='ft'><define-gate name='g'><or><event name='a'/><event name='b'/><event name='c'/></or></define-gate></define-fault-tree>
<model-data><define-parameter name='p' unit='hours-1'><mul><float value='0.5'/><parameter name='q'/></mul></define-parameter>
<define-parameter name='q' unit='bool'><ite><lt><float value='1'/><int value='2'/></lt><float value='0.1'/><bool value='true'/></ite></define-parameter>
<define-basic-event name='a'><min><parameter name='p'/><sub><float value='1'/><float value='0.5'/></sub><div><float value='1'/><float value='4'/></div></min></define-basic-event>
<define-basic-event name='b'><switch><case><eq><float value='1'/><float value='1'/></eq><float value='0.2'/></case><float value='0.3'/></switch></define-basic-event>
<define-basic-event name='c'><exponential><pow><float value='0.1'/><float value='2'/></pow><system-mission-time/></exponential></define-basic-event>
</model-data></opsa-mef>"""

RANDOM = """<opsa-mef><define-fault-tree name='ft'><define-gate name='g'><or><event name='a'/><event name='b'/><event name='c'/><event name='d'/></or></define-gate></define-fault-tree>
<model-data><define-basic-event name='a'><lognormal-deviate><float value='0.01'/><float value='3'/><float value='0.95'/></lognormal-deviate></define-basic-event>
<define-basic-event name='b'><histogram><float value='0'/><bin><float value='0.1'/><float value='1'/></bin><bin><float value='0.2'/><float value='2'/></bin></histogram></define-basic-event>
<define-basic-event name='c'><GLM><float value='0.1'/><uniform-deviate><float value='0.01'/><float value='0.02'/></uniform-deviate><float value='0.05'/><system-mission-time/></GLM></define-basic-event>
<define-basic-event name='d'><mul><beta-deviate><float value='2'/><float value='3'/></beta-deviate><gamma-deviate><float value='1'/><float value='0.1'/></gamma-deviate></mul></define-basic-event>
</model-data></opsa-mef>"""

TIMES = """<opsa-mef><define-fault-tree name='ft'><define-gate name='g'><or><event name='a'/><event name='b'/><event name='c'/></or></define-gate></define-fault-tree>
<model-data><define-basic-event name='a'><periodic-test><float value='0.001'/><float value='100'/><float value='10'/><system-mission-time/></periodic-test></define-basic-event>
<define-basic-event name='b'><periodic-test><float value='0.001'/><float value='0.01'/><float value='100'/><float value='10'/><system-mission-time/></periodic-test></define-basic-event>
<define-basic-event name='c'><Weibull><float value='300'/><float value='2'/><float value='1'/><system-mission-time/></Weibull></define-basic-event>
</model-data></opsa-mef>"""

EVENTS = """<opsa-mef><define-initiating-event name='I' event-tree='T'/>
<define-event-tree name='T'><define-functional-event name='F'/><define-functional-event name='K'/><define-sequence name='S'/><define-sequence name='R'><event-tree name='U'/></define-sequence>
<define-branch name='B'><fork functional-event='K'><path state='x'><sequence name='S'/></path><path state='y'><collect-formula><event name='b'/></collect-formula><sequence name='R'/></path></fork></define-branch>
<initial-state><fork functional-event='F'><path state='x'><collect-formula><gate name='ft.g'/></collect-formula><branch name='B'/></path>
<path state='y'><set-house-event name='h'><constant value='true'/></set-house-event><if><test-functional-event name='F' state='y'/><collect-formula><not><gate name='ft.g'/></not></collect-formula></if><sequence name='S'/></path></fork></initial-state></define-event-tree>
<define-event-tree name='U'><define-sequence name='Q'/><initial-state><sequence name='Q'/></initial-state></define-event-tree>
<define-fault-tree name='ft'><define-gate name='g'><or><event name='a'/><event name='h'/></or></define-gate></define-fault-tree>
<model-data><define-basic-event name='a'><float value='0.1'/></define-basic-event><define-basic-event name='b'><float value='0.2'/></define-basic-event>
<define-house-event name='h'><constant value='false'/></define-house-event></model-data></opsa-mef>"""

SEQUENCES = """<opsa-mef><define-initiating-event name='I' event-tree='T'/>
<define-event-tree name='T'><define-functional-event name='F'/><define-sequence name='S'/><define-sequence name='R'/>
<initial-state><fork functional-event='F'><path state='x'><collect-expression><parameter name='p'/></collect-expression><rule name='r'/><sequence name='S'/></path>
<path state='y'><block><collect-expression><float value='0.3'/></collect-expression><if><test-initiating-event name='I'/><collect-expression><float value='0.5'/></collect-expression></if></block><sequence name='R'/></path></fork></initial-state></define-event-tree>
<define-rule name='r'><collect-expression><float value='0.25'/></collect-expression></define-rule>
<model-data><define-parameter name='p'><float value='0.1'/></define-parameter></model-data></opsa-mef>"""

PHASES = """<opsa-mef><define-alignment name='A'><label>l</label><define-phase name='p' time-fraction='0.25'><set-house-event name='h'><constant value='true'/></set-house-event></define-phase>
<define-phase name='q' time-fraction='0.75'/></define-alignment>
<define-fault-tree name='ft'><define-gate name='g'><and><event name='a'/><event name='h'/></and></define-gate></define-fault-tree>
<model-data><define-basic-event name='a'><exponential><float value='0.01'/><system-mission-time/></exponential></define-basic-event>
<define-house-event name='h'><constant value='false'/></define-house-event></model-data></opsa-mef>"""

SUBSTITUTIONS = """<opsa-mef><define-substitution name='d' type='delete-terms'><hypothesis><and><basic-event name='a'/><basic-event name='b'/></and></hypothesis><target><constant value='false'/></target></define-substitution>
<define-substitution name='r' type='recovery-rule'><hypothesis><and><basic-event name='b'/><basic-event name='c'/></and></hypothesis><target><basic-event name='e'/></target></define-substitution>
<define-substitution name='x'><hypothesis><basic-event name='a'/></hypothesis><source><basic-event name='d'/></source><target><basic-event name='f'/></target></define-substitution>
<define-fault-tree name='ft'><define-gate name='g'><or><gate name='k'/><event name='d'/><event name='c'/></or></define-gate><define-gate name='k'><and><event name='a'/><event name='b'/></and></define-gate></define-fault-tree>
<model-data>%s</model-data></opsa-mef>""" % "".join(
    "<define-basic-event name='%s'><float value='0.1'/></define-basic-event>" % x for x in "abcdef")

EXTERN = """<opsa-mef><define-extern-library name='lib' path='no/such' system='true' decorate='true'/>
<define-extern-function name='f' symbol='foo' library='lib'><double/><int/></define-extern-function>
<model-data><define-parameter name='p'><extern-function name='f'><float value='1'/></extern-function></define-parameter></model-data></opsa-mef>"""

ALL = {"tree": TREE, "logic": LOGIC, "ccf": CCF, "expressions": EXPRESSIONS, "random": RANDOM,
       "times": TIMES, "events": EVENTS, "sequences": SEQUENCES, "phases": PHASES,
       "substitutions": SUBSTITUTIONS, "extern": EXTERN}
