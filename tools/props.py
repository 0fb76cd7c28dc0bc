"""What decides each property: trace scenarios live in harness/scn_*.go, design models in spec/MC*.tla."""
REQ = dict(name='request', module='MCRequest', quick=dict(PROP='"ALL"', MaxOps=3, MaxMarks=2, MaxRetry=1), thorough=dict(MaxOps=5),
  cfg='''SPECIFICATION SpecFair
INVARIANTS DeliveredOnce PerformedIffDelivered LockedWhilePrepared NothingLeft SeenBound SeenAll TakenOnce
PROPERTIES FinalForever
CHECK_DEADLOCK FALSE
''')
SVC = dict(name='service', module='MCService', quick=dict(PROP='"ALL"', NR=2, MaxFail=1, Width=1), thorough=dict(NR=3, Width=2),
  cfg='''SPECIFICATION Spec
INVARIANTS WidthKept NoLateHandler NeverExecutedDone
PROPERTIES Answered AnsweredOnce
CHECK_DEADLOCK FALSE
''')
CTX = dict(name='context', module='MCContext', quick=dict(NR=2, NW=2, KillP='TRUE', KillQ='TRUE'), thorough=dict(NR=3),
  cfg='''SPECIFICATION Spec
INVARIANTS CancelledAll ChildDead NoLate
PROPERTIES WaitersWoken KillReturns WaitReturns
CHECK_DEADLOCK FALSE
''')
def multi(mode):
    return dict(name='multi-' + mode, module='MCMulti', quick=dict(N=3, NK=2, Mode='"%s"' % mode), thorough=dict(N=4),
  cfg='''SPECIFICATION Spec
INVARIANTS NoPanic ExactlyOnce NeverTwice Killed
PROPERTIES Ends
CHECK_DEADLOCK FALSE
''')
TIMER = dict(name='timer', module='MCTimer', quick=dict(K=2, Max=5, SigLocked='TRUE'), thorough=dict(Max=6),
  cfg='''SPECIFICATION Spec
INVARIANTS NeverEarly AtMostOnce
PROPERTIES Fires Settles
CHECK_DEADLOCK FALSE
''')
HEAP = dict(name='heap', module='MCHeap', quick=dict(M=6, D=2, Fifo='TRUE'), thorough=dict(M=7, D=3),
  cfg='''SPECIFICATION Spec
INVARIANTS Root Tree Smallest
CHECK_DEADLOCK FALSE
''')
QUEUE = dict(name='queue', module='MCQueue', quick=dict(S=2, N=3, Cap=1, Bug='"none"'), thorough=dict(N=4),
  cfg='''CONSTANT Kill <- KillSet
SPECIFICATION Spec
INVARIANTS InOrder NeverBlocks
PROPERTIES AllCome
CHECK_DEADLOCK FALSE
''')
BAL = dict(name='balancer', module='MCBalancer', quick=dict(R=3, K=2, Early='{1}'), thorough=dict(R=5, K=3),
  cfg='''SPECIFICATION Spec
INVARIANTS RunOnce
PROPERTIES Answered
CHECK_DEADLOCK FALSE
''')
REGY = dict(name='registry', module='MCRegistry', quick=dict(P=3, A=2, Recheck='TRUE'), thorough=dict(P=4, A=3),
  cfg='''SPECIFICATION Spec
INVARIANTS OnePerAddress
PROPERTIES Ends
CHECK_DEADLOCK FALSE
''')
LAY = dict(name='layout', module='MCLayout', quick=dict(PROP='"ALL"', Bytes='{0, 1, 2, 128}', MaxLen=2, MaxBody=5, Bug='"none"'), thorough=dict(Bytes='{0, 1, 2, 127, 128}', MaxBody=6),
  cfg='''SPECIFICATION Spec
INVARIANTS RoundTrip NoPrefix Faithful
CHECK_DEADLOCK FALSE
''')
SBOX = dict(name='sbox', module='MCSbox', quick=dict(PROP='"ALL"', Bytes='{130}', MaxT=2, Bug='"none"'), thorough=dict(Bytes='{0, 130}', MaxT=3),
  cfg='''SPECIFICATION Spec
INVARIANTS Apart Split Short
CHECK_DEADLOCK FALSE
''')
SLICE = dict(name='slice', module='MCSlice', quick=dict(Size=4, Total=12, MaxN=6, MaxBuf=4), thorough=dict(Total=14, MaxN=7),
  cfg='''SPECIFICATION Spec
INVARIANTS Exact Rest
CHECK_DEADLOCK FALSE
''')
BUF = dict(name='buf', module='MCBuf', quick=dict(L=8, Max=24), thorough=dict(L=12, Max=30),
  cfg='''SPECIFICATION Spec
INVARIANTS InOrder Bounded
CHECK_DEADLOCK FALSE
''')
CONN = dict(name='connection', module='MCConn', quick=dict(R=3, Recheck='TRUE'), thorough=dict(R=5),
  cfg='''SPECIFICATION Spec
INVARIANTS Once NotEarly Nothing
PROPERTIES Ends Kept
CHECK_DEADLOCK FALSE
''')
POOL = dict(name='pool', module='MCPool', quick=dict(C=5, Max=2, Changes=2, Bug='"none"'), thorough=dict(C=6, Max=3),
  cfg='''SPECIFICATION Spec
INVARIANTS Books Sane
PROPERTIES Enough Over Answered
CHECK_DEADLOCK FALSE
''')
IDS = dict(name='ids', module='MCIds', quick=dict(N=12, W=3, MaxGiven=7, Short='TRUE'), thorough=dict(N=16, W=4, MaxGiven=8),
  cfg='''SPECIFICATION Spec
INVARIANTS Found NoLeak
CHECK_DEADLOCK FALSE
''')
END = dict(name='end', module='MCEnd', quick=dict(R=3, K=2, W=2, Bug='"none"'), thorough=dict(R=4),
  cfg='''SPECIFICATION Spec
INVARIANTS AtMostOnce Right
PROPERTIES Answered
CHECK_DEADLOCK FALSE
''')
SERVER = dict(name='server', module='MCServer', quick=dict(R=4, Pings='{2}', Prompt='{1,2,3,4}', Cap=1, Lossy='TRUE', Bug='"none"'), thorough=dict(R=6, Cap=2, Prompt='{1,2,3,4,5,6}'),
  cfg='''SPECIFICATION Spec
INVARIANTS Once Complete AllRead NoPanic Released
PROPERTIES Drains Gone
CHECK_DEADLOCK FALSE
''')
CODES = dict(name='codes', module='MCCodes', quick=dict(PROP='"ALL"', His='{"0", "f"}', Los='{0, 2, 3, 11}', N=2, Bug='"none"'), thorough=dict(Los='{0, 1, 2, 3, 8, 11, 255}'),
  cfg='''SPECIFICATION Spec
INVARIANTS Never Others Upper Mapped
CHECK_DEADLOCK FALSE
''')
HELD = dict(SERVER, name='server-held', quick=dict(SERVER['quick'], Prompt='{1}'), thorough=dict(R=6, Cap=2))
CODEC = '.,marshal,sbox'
PROPS = {
 'R01': dict(design=[REQ]),
 'R02': dict(design=[REQ]),
 'R03': dict(design=[REQ, SVC]),
 'C01': dict(design=[CTX]),
 'C02': dict(design=[CTX]),
 'M01': dict(design=[multi('list'), multi('stream')]),
 'T01': dict(design=[TIMER, HEAP]),
 'Q01': dict(design=[QUEUE]),
 'A01': dict(design=[BAL, REGY]),
 'N01': dict(design=[IDS, CONN], budget=dict(quick=18), workers=24),
 'N02': dict(design=[CONN, POOL], budget=dict(quick=18), workers=40),
 'N03': dict(design=[CONN, POOL], budget=dict(quick=18), workers=48),
 'V01': dict(design=[SERVER], budget=dict(quick=12)),
 'V02': dict(design=[CODES]),
 'V03': dict(design=[SERVER, HELD], budget=dict(quick=18)),
 'E01': dict(design=[END], budget=dict(quick=14)),
 'X01': dict(design=[LAY], dirs=CODEC),
 'X02': dict(design=[LAY], dirs=CODEC),
 'B01': dict(design=[SBOX], dirs=CODEC),
 'B02': dict(design=[SBOX], dirs=CODEC),
 'W01': dict(design=[SLICE, BUF]),
 'S01': dict(design=[SVC]),
 'S02': dict(design=[SVC]),
}
