"""The harness runs that decide each property."""
class Run:
    def __init__(s,name,harness,flags='',bounds='',quick=60,thorough=600,procs=2,ub=False,reach=(),thorough_only=False,samples=4,engine='',san=True,clang_native=False):
        s.name=name; s.harness=harness; s.flags=flags.split() if isinstance(flags,str) else list(flags); s.bounds=bounds; s.quick=quick; s.thorough=thorough; s.procs=procs; s.ub=ub; s.reach=list(reach); s.thorough_only=thorough_only; s.samples=samples; s.engine=engine.split(); s.san=san; s.clang_native=clang_native
COMMON=['the executor build/irsym, clang -O2 lowering to LLVM IR and the SAT/SMT back ends are trusted; every reported counterexample is replayed on code compiled by g++','memory allocation does not fail; sizes and addresses are concrete','counts of paths left unexplored are listed per run; anything outside the listed bounds is not covered']
ASSUME={}
PLAN={}
def plan(prop,*runs,assume=()):
    PLAN[prop]=list(runs); ASSUME[prop]=list(assume)

C32='-DCOORD=int32_t'
plan('C09',
 Run('cross-wide32','c09_intersect',C32+' -DWIDE -DCROSSING','two arbitrary non-parallel segments, every 31-bit coordinate',60,600,1,engine='--nra --qsec 5',reach=['meet','apart']),
 Run('adjacent-wide32','c09_intersect',C32+' -DWIDE -DCROSSING -DSHARED=1','non-parallel segments sharing a vertex, every 31-bit coordinate',30,100,1,engine='--nra --qsec 5',reach=['adjacent']),
 Run('collinear-wide32','c09_intersect',C32+' -DWIDE -DCOLLINEAR','four points base+t*dir: base and dir any 27-bit values, t in 0..3 (all orders of four points on a line)',120,600,3,engine='--nra --qsec 5',reach=['overlap','collinear-apart']),
 Run('parallel-wide32','c09_intersect',C32+' -DWIDE -DCOLLINEAR -DOFFSET','two segments on distinct parallel lines, 27-bit base, direction and distance',60,300,1,engine='--nra --qsec 5',reach=['parallel']),
 Run('collinear-shared','c09_intersect',C32+' -DWIDE -DCOLLINEAR -DSHARED=2','as collinear-wide32, a of one segment is b of the other',120,600,2,engine='--nra --qsec 5'),
 Run('collinear-same-lines','c09_intersect',C32+' -DWIDE -DCOLLINEAR -DSHARED=9','as collinear-wide32, both segments join the same two vertices',120,600,2,engine='--nra --qsec 5'),
 Run('collinear-shared-starts','c09_intersect',C32+' -DRANGE=63 -DCOLLINEAR -DSHARED=1','four points base+t*dir, base and dir in [-64,63]^2, t in 0..3, both segments start at one vertex',60,600,1,engine='--qsec 20'),
 Run('collinear-shared-ends','c09_intersect',C32+' -DRANGE=63 -DCOLLINEAR -DSHARED=8','four points base+t*dir, base and dir in [-64,63]^2, t in 0..3, both segments end at one vertex',60,600,1,engine='--qsec 20'),
 Run('collinear-shared-turned','c09_intersect',C32+' -DRANGE=63 -DCOLLINEAR -DSHARED=4','four points base+t*dir, base and dir in [-64,63]^2, t in 0..3, b of one segment is a of the other',60,600,1,engine='--qsec 20'),
 Run('collinear-shared-both-turned','c09_intersect',C32+' -DRANGE=63 -DCOLLINEAR -DSHARED=6','four points base+t*dir, base and dir in [-64,63]^2, t in 0..3, both segments join the same two vertices in opposite directions',60,600,1,engine='--qsec 20'),
 Run('cross-rounding','c09_intersect','-DRANGE=3 -DCROSSING -DORIGIN=1','non-parallel segments, one end at (1,-1), the others in [-3,3]^2, both outcomes of every random rounding choice',250,1200,4,engine='--qsec 60',reach=['meet','apart']),
 Run('cross-wide64','c09_intersect','-DCOORD=int64_t -DWIDE -DCROSSING','two arbitrary non-parallel segments, every 63-bit coordinate (not completed: counted as such)',60,1200,2,engine='--nra --qsec 5',thorough_only=True),
 Run('collinear-wide64','c09_intersect','-DCOORD=int64_t -DWIDE -DCOLLINEAR','as collinear-wide32 with 64-bit coordinates (59-bit base and direction)',60,1200,2,engine='--nra --qsec 5',thorough_only=True),
 Run('cross-rounding-4','c09_intersect','-DRANGE=4 -DCROSSING -DORIGIN=1','as cross-rounding in [-4,4]^2',60,1800,4,engine='--qsec 200',thorough_only=True),
 assume=['wide runs specialise coord_ops<int32_t> (the documented customisation point) with the default arithmetic but constant floor/ceil, since doubles are modelled as exact rationals; interior crossings are rounded for real in the cross-rounding runs','doubles are modelled as exact rationals: in the rounding runs every product is below 2^53 and quotients of such values round to the same floor and ceil'])
A8='every coordinate of the type (int32: 31 bit)'
plan('C08',
 Run('triangle32','c08_area',C32+' -DTRIANGLE','one triangle, all int32 coordinates within +-2^30',60,300,1),
 Run('quad32','c08_area',C32+' -DNPTS=4','closed loops of 4 points, int32 within +-2^30',60,300,1),
 Run('triangle64','c08_area','-DCOORD=int64_t -DBITS=64 -DTRIANGLE','one triangle, int64 within +-2^62',60,300,1),
 Run('loop3-64','c08_area','-DCOORD=int64_t -DBITS=64 -DNPTS=3','closed loops of 3 points, int64',60,300,1),
 Run('quad64','c08_area','-DCOORD=int64_t -DBITS=64 -DNPTS=4','closed loops of 4 points, int64',60,300,1),
 Run('triangle16','c08_area','-DCOORD=int16_t -DBITS=16 -DTRIANGLE','one triangle, int16',60,300,1),
 Run('loop5-16','c08_area','-DCOORD=int16_t -DBITS=16 -DNPTS=5','closed loops of 5 points, int16',60,300,1))

# ---- clipping: two operands out of lists of shapes, the second one anywhere around the first
def sh(*n): return ','.join('E(%s)'%x for x in n)
GROUPS={
 'simple':(sh('square','ccw','twice','side','corner'),sh('square'),'square in either orientation, doubled, side by side and corner to corner x square'),
 'holes':(sh('octagon','L','ring','nest'),sh('small','bar'),'octagon, L, ring and four nested squares x small square, bar'),
 'rings':(sh('ring'),sh('ring','side'),'ring x ring, two squares sharing a side'),
 'bows':(sh('bow','X','spike'),sh('small'),'two self-crossing quadrilaterals and a square with an out-and-back line x small square'),
 'multi':(sh('U','two','islands'),sh('square'),'U, two squares, two rings x square'),
 'steps':(sh('L'),sh('U'),'L x U'),
 'slanted':(sh('rtri','bow','hourglass'),sh('square'),'right triangle, self-crossing and self-touching polygons x square'),
 'touch':(sh('corner','side'),sh('corner','side'),'pairs of squares touching in a corner or a side x the same'),
 'oct':(sh('octagon'),sh('diamond'),'octagon x diamond'),
 'deep':(sh('nest','islands'),sh('ring'),'four nested squares, two rings x ring'),
 'walls':(sh('U','plus','islands'),sh('wall'),'U, plus, two rings x wall'),
 'spiral':(sh('spiral'),sh('diamond','square','ring'),'spiral x diamond, square, ring'),
 'octplus':(sh('octagon'),sh('plus'),'octagon x plus'),
}
QUICK=['simple','holes','rings','bows','multi','steps','slanted','touch','oct']
DEEP=['deep','walls','spiral','octplus']
def clips(h,flags='',rand=0,groups=QUICK,deep=DEEP,reach=('some-output',),**k):
    r=[]
    for n,g in enumerate(groups+deep):
        a,b,t=GROUPS[g]; q=n<len(groups)
        r.append(Run(g,h,'-DAS=%s -DBS=%s -DVERIF_RAND_FIXED=%d %s'%(a,b,(rand+n)%2,flags),t+', every operation; the second operand at every even position (dx,dy) in [-16,24]^2',100 if q else 600,900,8,reach=reach,thorough_only=not q,**k))
    return r
SL=sh('tri','star','needle','kite')
SLT='all pairs of triangle, five-pointed star, needle and kite'
OCT='shapes whose lines are horizontal, vertical or diagonal, so that every crossing is an integer point and the expected region is exact'
plan('C01',
 Run('rectangles-union','c01_rects','-DRANGE=40 -DOP=0','two rectangles with any corners in [0,40]^2, query point anywhere',100,600,8),
 Run('rectangles-xor','c01_rects','-DRANGE=40 -DOP=2','as above, xor',100,600,8),
 *[Run('rectangles-%d'%o,'c01_rects','-DRANGE=40 -DOP=%d'%o,'as above, operation %d'%o,100,600,8,thorough_only=True) for o in (1,3,4)],
 *clips('clip_region'),
 Run('large','clip_region','-DAS=E(square),E(ring) -DBS=E(square) -DSCALE=1000 -DSTEP=1000 -DVERIF_RAND_FIXED=0','square, ring x square scaled by 1000, in steps of 1000',100,600,8,reach=['some-output']),
 Run('sloped','clip_approx','-DCONC -DAS=%s -DBS=%s -DSCALE=4 -DSTEP=12 -DTX0=-12 -DTX1=12 -DVERIF_RAND_FIXED=0'%(SL,SL),SLT+', scaled by 4, 81 positions, every operation; every query point further than 3 units from all input lines',120,600,8,reach=['some-output']),
 Run('sloped-rounding','clip_approx','-DCONC -DAS=E(tri),E(kite) -DBS=E(kite) -DSCALE=3 -DTX0=0 -DTX1=1 -DSTEP=1 -DTY0=1 -DTY1=1','triangle, kite x kite, every rounding choice',60,600,4,reach=['some-output']),
 Run('sloped-more','clip_approx','-DCONC -DAS=%s -DBS=%s -DSCALE=2 -DSTEP=2 -DTX0=-12 -DTX1=12 -DVERIF_RAND_FIXED=1'%(SL,SL),SLT+', scaled by 2, 625 positions',60,900,8,thorough_only=True),
 Run('sloped-rounding-more','clip_approx','-DCONC -DAS=E(tri),E(kite),E(star) -DBS=E(kite),E(needle) -DSCALE=3 -DTX0=-2 -DTX1=3 -DSTEP=3','every rounding choice, 49 positions',60,900,8,thorough_only=True),
 assume=[OCT,'sloped runs: the result is compared away from the input lines because rounding moves crossings by up to a unit; std::minstd_rand is replaced by a source whose draws are symbolic (…-rounding) or fixed to one extreme'])
plan('C02',
 *clips('clip_cross',groups=[g for g in QUICK if g!='slanted'],deep=DEEP+['slanted']),
 Run('sloped-any-position','clip_cross','-DA=tri -DB=kite -DOP=0 -DVERIF_RAND_FIXED=0','triangle x kite at every even position in [-16,24]^2, union',120,900,8,reach=['some-output']),
 Run('sloped-line','clip_cross','-DA=tri -DB=kite -DOP=0 -DTX0=-2 -DTX1=6 -DSTEP=1 -DTY0=1 -DTY1=1','triangle x kite along a line of positions, union, every rounding choice',60,300,8,reach=['some-output']),
 Run('sloped-rounding','clip_cross','-DCONC -DAS=E(tri),E(needle) -DBS=E(kite),E(bar),E(needle) -DTX0=-8 -DTX1=8 -DSTEP=8','triangle, needle x kite, bar, needle at 9 positions, every operation and every rounding choice',60,600,8,reach=['some-output']),
 Run('sloped-dense','clip_cross','-DCONC -DAS=%s -DBS=%s -DSTEP=3 -DTX0=-9 -DTX1=9 -DVERIF_RAND_FIXED=1'%(SL,SL),SLT+', 49 positions, every operation',60,600,8,reach=['some-output']),
 Run('star-rounding','clip_cross','-DCONC -DAS=E(star) -DBS=E(bar) -DTX0=1 -DTX1=1 -DSTEP=1 -DOP=0','star x bar, one position, every rounding choice (16384 sequences)',60,300,8,reach=['some-output']),
 Run('sloped-rounding-more','clip_cross','-DCONC -DAS=E(tri),E(needle),E(kite) -DBS=E(kite),E(bar),E(needle),E(star) -DTX0=-8 -DTX1=8 -DSTEP=2','81 positions, every operation and every rounding choice',60,900,8,thorough_only=True),
 Run('sloped-dense-more','clip_cross','-DCONC -DAS=%s,E(zig) -DBS=%s,E(zig) -DSTEP=1 -DTX0=-12 -DTX1=12 -DVERIF_RAND_FIXED=0'%(SL,SL),SLT+' and a zigzag, 625 positions, every operation',60,900,8,thorough_only=True),
 assume=['std::minstd_rand is replaced by a source whose draws are symbolic, or fixed to one extreme where the bounds do not say "every rounding choice"'])
plan('C03',
 *clips('clip_loops',rand=1),
 Run('sloped','clip_loops','-DSLOPED -DCONC -DAS=%s -DBS=%s -DSTEP=3 -DTX0=-9 -DTX1=9 -DVERIF_RAND_FIXED=0'%(SL,SL),SLT+', 49 positions, every operation, query point anywhere off the output lines',60,600,8,reach=['some-output']),
 Run('sloped-rounding','clip_loops','-DSLOPED -DCONC -DAS=E(tri),E(needle) -DBS=E(kite),E(bar),E(needle) -DTX0=-8 -DTX1=8 -DSTEP=8','triangle, needle x kite, bar, needle at 9 positions, every operation and rounding choice',60,600,8,reach=['some-output']),
 Run('sloped-rounding-more','clip_loops','-DSLOPED -DCONC -DAS=E(tri),E(needle),E(kite) -DBS=E(kite),E(bar),E(needle),E(star) -DTX0=-8 -DTX1=8 -DSTEP=4','25 positions, every rounding choice',60,900,8,thorough_only=True),
 assume=[OCT+' (sloped runs: winding of the output itself, at any point)'])
plan('C04',
 *clips('clip_tree',reach=()),
 Run('overlap-finding','clip_tree','-DOVERLAP -DA=plus -DB=plus -DOP=4 -DTX0=0 -DTX1=0 -DTY0=-6 -DTY1=-6 -DVERIF_RAND_FIXED=0','normalize of two plus shapes, the second one at (0,-6): the listed finding',30,30,1),
 assume=[OCT,'results in which two lines overlap completely are only checked for the region they describe (see the finding)'])
DG='-DVERIF_RAND_FIXED=0'
plan('C05',
 Run('other-ways','clip_degen','-DSINK -DMODE=0 -DA=ring -DB=diamond -DTX0=-8 -DTX1=12 -DOP=2 '+DG,'ring and diamond with repeated points through ranges, point sinks, a moved clipper and the single-operand functions',120,600,4,reach=['some-output']),
 Run('other-ways-short','clip_degen','-DSINK -DMODE=1 -DKLO=0 -DKHI=5 -DA=square -DB=diamond -DTX0=0 -DTX1=8 -DOP=0 '+DG,'short loops the same ways',60,600,4,reach=['some-output']),
 Run('repeats','clip_degen','-DMODE=0 -DAS=E(square),E(ring) -DBS=E(diamond) -DTX0=-8 -DTX1=12 -DOP=0 '+DG,'square, ring and diamond at every even position in [-8,12]^2; any point of any loop repeated up to 3 times, first point repeated at the end',120,600,8,reach=['some-output']),
 Run('repeats-xor','clip_degen','-DMODE=0 -DA=L -DB=square -DTX0=-8 -DTX1=12 -DOP=2 '+DG,'L and square, xor',120,600,8,reach=['some-output']),
 Run('short-loops','clip_degen','-DMODE=1 -DKLO=0 -DKHI=2 -DA=square -DB=diamond -DTX0=-8 -DTX1=12 -DOP=2 '+DG,'a loop of no points or one (repeated) point anywhere in [-4,14]^2 at any place in either operand',120,600,8,reach=['some-output']),
 Run('two-point-loops','clip_degen','-DMODE=1 -DKLO=3 -DKHI=5 -DA=square -DB=diamond -DTX0=-8 -DTX1=12 -DOP=0 '+DG,'as above, loops of two distinct points, also repeated',120,600,8,reach=['some-output']),
 *[Run('all-%d'%o,'clip_degen','-DMODE=0 -DAS=E(square),E(ring),E(octagon) -DBS=E(square),E(diamond) -DOP=%d '%o+DG,'repeated points, operation %d'%o,60,900,8,thorough_only=True) for o in range(5)],
 *[Run('short-%d'%o,'clip_degen','-DMODE=1 -DKLO=0 -DKHI=5 -DAS=E(square),E(ring) -DBS=E(square),E(diamond) -DOP=%d '%o+DG,'short loops, operation %d'%o,60,900,8,thorough_only=True) for o in range(5)])
plan('C06',
 Run('flat','clip_reuse','-DAS=E(square),E(ring) -DBS=E(diamond) -DC=octagon -DHIST=2 -DTX0=-8 -DTX1=12 '+DG,'any two earlier actions (adding to either set, executing four kinds of operation, reset), then square or ring with diamond at every even position in [-8,12]^2, every operation',150,900,8,reach=['some-output']),
 Run('tree','clip_reuse','-DTREE -DA=ring -DB=square -DC=ring -DHIST=2 -DTX0=-8 -DTX1=12 '+DG,'as above, ring with square, result as a hierarchy',150,900,8,reach=['some-output']),
 Run('sloped-history','clip_reuse','-DCONC -DA=L -DB=diamond -DC=star -DHIST=1 -DTX0=-8 -DTX1=12 -DSTEP=4 '+DG,'one earlier action with a star (rounded crossings)',60,300,8,reach=['some-output']),
 Run('three','clip_reuse','-DA=square -DB=diamond -DC=side -DHIST=3 -DTX0=-8 -DTX1=12 '+DG,'any three earlier actions',60,900,8,thorough_only=True),
 Run('three-tree','clip_reuse','-DTREE -DA=ring -DB=ring -DC=corner -DHIST=3 -DTX0=-8 -DTX1=12 '+DG,'any three earlier actions',60,900,8,thorough_only=True))
# ---- internals of the clipper (with one run through the public interface each)
def pub(h='clip_region',**k): return Run('through-clipper',h,'-DAS=E(square),E(ring),E(side) -DBS=E(square) -DVERIF_RAND_FIXED=0','the same through the public interface: square, ring, two squares x square at every even position, every operation',100,300,8,reach=['some-output'],**k)
plan('C10',
 Run('hit','c10_ray',C32+' -DMODE=0','one line and a query line in general position, every 31-bit coordinate',60,300,2,engine='--nra --qsec 5',reach=['hit','miss']),
 Run('vertical','c10_ray',C32+' -DMODE=1','shared x positions',60,300,2,engine='--nra --qsec 5',reach=['hit']),
 Run('coincident','c10_ray',C32+' -DMODE=2 -DCOLLINEAR','lines on one line',60,300,2,engine='--nra --qsec 5',reach=['coincident']),
 Run('general','c10_ray',C32+' -DMODE=2','lines with a common end',60,300,2,engine='--nra --qsec 5'),
 Run('pair','c10_dual','-DFIRST=0 -DRANGE=6','two lines from one point, coincident ones included, among six lines in [0,6]^2',60,300,2,reach=['above']),
 Run('pair-swapped','c10_dual','-DFIRST=3 -DRANGE=6','the same with the later line first',60,300,2,reach=['above']),
 Run('swap','c10_ray',C32+' -DMODE=3','direction reversed',60,300,2,engine='--nra --qsec 5'),
 *[Run('balance-%d-%d'%(m,o),'c10_balance','-DMAIN=%d -DOP=%d'%(m,o),'lines around the tested line, operation %d'%o,60,300,1,engine='--qsec 5') for m,o in ((0,0),(1,1),(2,2),(3,3),(4,4),(5,0),(0,2),(1,4),(2,3))],
 *[Run('balance-%d-%d'%(m,o),'c10_balance','-DMAIN=%d -DOP=%d'%(m,o),'lines around the tested line, operation %d'%o,60,300,1,engine='--qsec 5',thorough_only=True) for m in range(6) for o in range(5) if (m,o) not in ((0,0),(1,1),(2,2),(3,3),(4,4),(5,0),(0,2),(1,4),(2,3))],
 pub())
plan('C11',
 Run('events-wide32','c11_order',C32+' -DMODE=0','order of events: every 31-bit coordinate',60,300,2,reach=[]),
 Run('sweep-order','c11_order','-DRANGE=7 -DMODE=1','antisymmetry, transitivity and geometric meaning of the sweep order: lines in [-7,7]^2',60,300,4,engine='--qsec 10',reach=['strict','coincident']),
 Run('sweep-order-wide','c11_order',C32+' -DMODE=1 -DCASE=2','lines starting at one x: every 31-bit coordinate',60,300,4,engine='--nra --qsec 10'),
 Run('sweep-order-wide-3','c11_order',C32+' -DMODE=1 -DCASE=3','one line starting left of the other: every 31-bit coordinate',100,300,4,engine='--nra --qsec 2'),
 Run('sweep-order-wide-4','c11_order',C32+' -DMODE=1 -DCASE=4','mirrored',100,300,4,engine='--nra --qsec 2'),
 Run('three-lines','c11_order','-DRANGE=4 -DMODE=2','order of three non-crossing lines in [-4,4]^2 is consistent while they are swept',100,600,4,engine='--qsec 10',reach=['with-ending-lines','with-starting-lines']),
 Run('three-lines-6','c11_order','-DRANGE=6 -DMODE=2','as above in [-6,6]^2',60,900,4,engine='--qsec 10',thorough_only=True),
 Run('sweep-order-wide-1','c11_order',C32+' -DMODE=1 -DCASE=1','general position: every 31-bit coordinate (not completed: counted as such)',60,900,4,engine='--nra --qsec 10',thorough_only=True),
 pub('clip_cross'))
plan('C12',
 Run('burst-2-1-2','c12_events','-DNINIT=2 -DBURSTS=1 -DPERBURST=2 -DXR=2','two lines, then two added at any time, x in [0,2]',60,300,2,reach=['backtrack']),
 Run('burst-3-1-2','c12_events','-DNINIT=3 -DBURSTS=1 -DPERBURST=2 -DXR=1','three lines, two added',60,300,2),
 Run('burst-2-2-1','c12_events','-DNINIT=2 -DBURSTS=2 -DPERBURST=1 -DXR=2','two bursts of one line',60,300,2),
 Run('burst-1-2-2','c12_events','-DNINIT=1 -DBURSTS=2 -DPERBURST=2 -DXR=1','two bursts of two lines',60,300,2),
 Run('burst-3-1-2-wide','c12_events','-DNINIT=3 -DBURSTS=1 -DPERBURST=2 -DXR=2','x in [0,2]',100,600,4),
 Run('burst-3-2-2','c12_events','-DNINIT=3 -DBURSTS=2 -DPERBURST=2 -DXR=2','two bursts of two lines after three',60,900,8,thorough_only=True),
 Run('burst-2-3-1','c12_events','-DNINIT=2 -DBURSTS=3 -DPERBURST=1 -DXR=3','three bursts of one line',60,900,8,thorough_only=True),
 pub('clip_cross'))
plan('C13',
 Run('any-order-4','c13_tree','-DANYORDER -DNKEYS=4 -DERASES=1 -DLOOK=1','4 keys in any order with duplicates, one erased',60,300,4,reach=['duplicate']),
 Run('any-order-5','c13_tree','-DANYORDER -DNKEYS=5 -DERASES=4 -DREINSERT','5 keys in any order, four erased in any order and reinserted',100,300,4),
 Run('any-order-6','c13_tree','-DANYORDER -DNKEYS=6 -DERASES=1','6 keys in any order, one erased',100,300,4),
 Run('built-12-0','c13_tree','-DNKEYS=12 -DOPS=3 -DBUILD=0','12 keys inserted in ascending order, then any three operations',60,300,2,reach=['erase']),
 Run('built-12-3','c13_tree','-DNKEYS=12 -DOPS=3 -DBUILD=3','another order',60,300,2),
 Run('built-9','c13_tree','-DNKEYS=9 -DOPS=4 -DBUILD=1','9 keys, any four operations',60,300,2),
 Run('built-20','c13_tree','-DNKEYS=20 -DOPS=3 -DBUILD=2','20 keys, any three operations',60,300,2),
 Run('any-order-7','c13_tree','-DANYORDER -DNKEYS=7 -DERASES=2','7 keys in any order, two erased',60,900,8,thorough_only=True),
 Run('built-40','c13_tree','-DNKEYS=40 -DOPS=3 -DBUILD=2','40 keys, any three operations',60,900,4,thorough_only=True),
 Run('built-14-5','c13_tree','-DNKEYS=14 -DOPS=5 -DBUILD=1','14 keys, any five operations',60,900,8,thorough_only=True),
 pub('clip_loops'))
plan('C14',
 Run('from-empty','c14_sets','-DINITA=0 -DINITB=0 -DOPS=2','two empty sets, any two operations, any values',100,600,4,reach=['merge']),
 Run('sizes-3-2','c14_sets','-DINITA=3 -DINITB=2 -DOPS=1','sets of three and two values, any operation',100,600,4,reach=[]),
 Run('sizes-2-3','c14_sets','-DINITA=2 -DINITB=3 -DOPS=1','sets of two and three values',100,600,4),
 Run('proxy','c14_sets','-DPROXY -DOPS=2','elements of a collection of sets, any two operations',100,600,4),
 Run('sizes-1-0-64','c14_sets','-DINITA=1 -DINITB=0 -DOPS=2 -DVT=uint64_t','64-bit values',60,900,4,thorough_only=True),
 Run('proxy-3','c14_sets','-DPROXY -DOPS=3','any three operations',60,900,8,thorough_only=True),
 Run('from-empty-3','c14_sets','-DINITA=0 -DINITB=0 -DOPS=3','any three operations',60,900,8,thorough_only=True))
plan('C21',
 Run('arithmetic','c21_strided','-DARITH','iterators over any buffer position, any non-zero stride and offsets',60,300,4,reach=['strided']),
 Run('ranges','c21_strided','','ranges and casts to points, any strides and lengths within the buffer',60,300,4,reach=['points']))
# ---- safety of the whole clipper
FS='-DAS=E(square) -DBS=E(square) -DVERIF_RAND_FIXED=0 '
plan('C23',
 *clips('c23_safe',groups=['simple','holes','bows','touch'],deep=['rings','multi','steps','slanted','oct','deep','walls','spiral','octplus'],ub=True),
 Run('any-triangle','c23_safe',FS+'-DFREE=3 -DGLO=0 -DGHI=4 -DGSTEP=2 -DOP=0','a square and any triangle with corners on a 5x5 grid, degenerate ones included, union, as hierarchy and flat',100,300,4,ub=True,reach=['some-output']),
 *[Run('any-triangle-%d'%o,'c23_safe',FS+'-DCONC -DFREE=3 -DGLO=0 -DGHI=2 -DGSTEP=4 -DOP=%d'%o,'as above on a 3x3 grid, operation %d'%o,60,300,4,ub=True,reach=['some-output'] if o!=3 else []) for o in (1,2,3,4)],
 Run('any-five','c23_safe',FS+'-DFREE=5 -DGLO=0 -DGHI=1 -DGSTEP=5 -DOP=4','any loop of five points on a 2x2 grid (every repetition and overlap), normalize',60,300,4,ub=True,reach=['some-output']),
 Run('sloped-rounding','c23_safe','-DCONC -DAS=E(tri),E(needle) -DBS=E(kite),E(needle) -DTX0=-8 -DTX1=8 -DSTEP=8','triangle, needle x kite, needle at 9 positions, every operation and every rounding choice (not completed in the quick tier)',40,600,8,ub=True,reach=['some-output']),
 Run('large','c23_safe','-DAS=E(square),E(ring),E(X) -DBS=E(diamond),E(square) -DCONC -DSCALE=10000000 -DSTEP=40000000 -DVERIF_RAND_FIXED=0','square, ring, X x diamond, square scaled by 10^7 (coordinates up to 4*10^8)',60,300,4,ub=True,reach=['some-output']),
 *[Run('any-quad-%d'%o,'c23_safe',FS+'-DFREE=4 -DGLO=0 -DGHI=2 -DGSTEP=5 -DOP=%d'%o,'any loop of four points on a 3x3 grid, operation %d'%o,60,900,8,ub=True,thorough_only=True) for o in range(5)],
 Run('any-hexagon','c23_safe',FS+'-DFREE=6 -DGLO=0 -DGHI=1 -DGSTEP=5 -DOP=2','any loop of six points on a 2x2 grid, xor',60,900,8,ub=True,thorough_only=True),
 assume=['the assertions of the library stand for internal consistency; arithmetic is checked with the traps of clang (signed overflow, shift, division, null, array bounds)','python bindings, offsetting and drawing are outside','non-termination shows as a path longer than the step limit'])
# ---- large integers
NX='-DCFG_NOEXT'; CFGS=(('','compiler builtins'),('-DCFG_GCC','x86 intrinsics'),(NX,'portable'))
L=lambda x:x.replace('-D','').replace('=','').replace(' ','-').lower() or 'builtin'
def li(name,h,flags,bounds,quick=100,procs=4,**k): return Run(name,h,flags,bounds,quick,k.pop('thorough',600),procs,san=k.get('ub',False),clang_native=NX not in flags,**k)
plan('C15',
 *[li('pairs-'+L(f),'c15_add',f,'every pair of 1 to 4 64-bit words, signed or unsigned, and built-in integers of 8, 32, 64 bits: all values; '+t,150,5,reach=['done']) for f,t in CFGS],
 *[li('single-'+L(f),'c15_add','-DSINGLE '+f,'negation, absolute value, sign and truth of 1 to 4 words: all values; '+t,60,2) for f,t in CFGS],
 *[li('single-%d'%w,'c15_add','-DSINGLE -DWORD=%d '%w+NX,'the same with words of %d bits'%w,60,2) for w in (8,16,32)],
 li('pairs-8','c15_add','-DWORD=8 -DLISTA=I1,I2,I3,U1,U2,U3,int8_t,uint8_t '+NX,'1 to 3 words of 8 bits',100,3),
 li('pairs-32','c15_add','-DWORD=32 -DLISTA=I1,I2,I3,U1,U2,U3,int32_t,uint32_t '+NX,'1 to 3 words of 32 bits',100,3),
 assume=['the inline assembly variants for MSVC are outside'])
AT='--atoms --qsec 10'
plan('C16',
 li('one-word','c16_mul','-DLISTA=I1,U1','one-word factors of either signedness, all 64-bit values',60,1,engine=AT,reach=['product']),
 li('one-word-builtin','c16_mul','-DLISTA=I1,int64_t','one word and int64_t, all values',60,1,engine=AT,reach=['product']),
 li('unsigned','c16_mul','-DLISTA=U1,U2,U3,uint64_t -DLISTB=U1,U2,uint64_t','unsigned factors of up to three and two 64-bit words, all values',60,2,engine=AT,reach=['product']),
 li('builtin','c16_mul','-DLISTA=int32_t,uint32_t,int16_t,uint16_t','built-in factors of 16 and 32 bits',60,1),
 li('unsigned-noext','c16_mul',NX+' -DLISTA=U1,U2 -DLISTB=U1','unsigned factors of one or two 64-bit words, portable word product, all values',60,1,engine=AT,reach=['product']),
 li('one-word-noext','c16_mul',NX+' -DSIGNS -DLISTA=I1','signed one-word factors, portable word product, partly not decided',60,2,engine='--atoms --qsec 4'),
 li('words-32','c16_mul','-DWORD=32 -DLISTA=I1,U1 '+NX,'one-word factors, words of 32 bits, all values',60,1,engine=AT,reach=['product']),
 li('signed','c16_mul','-DLISTA=I2,I3 -DLISTB=I1,I2','signed factors of up to three words; searched for counterexamples, most of the cases are not decided (counted as such)',30,4,engine='--atoms --qsec 4',thorough=600),
 li('signed-edge','c16_mul','-DLISTA=I2,I3,U2 -DLISTB=I1,U1,I2 -DSPARSE=8','any factor times one with edge words (0, 1, 2, -1, -2, smallest, largest, halves), partly not decided',60,8,engine='--atoms --qsec 2',thorough=900),
 li('narrow-8','c16_mul','-DWORD=8 -DLISTA=I1,U1,U2,I2 -DLISTB=I1,U1 '+NX,'words of 8 bits, partly not decided',60,4,engine='--qsec 4',thorough=600),
 li('narrow-8-edge','c16_mul','-DWORD=8 -DLISTA=I1,I2,U2 -DLISTB=I1,U1,I2,U2 -DSPARSE=8 '+NX,'words of 8 bits, the second factor with edge words',60,8,engine='--qsec 3',thorough=600),
 assume=['sums of products are compared with the products as unknowns (within their bounds), which is sound for showing equality'])
plan('C18',
 li('shift','c18_bits','-DMODE=0','1 to 4 64-bit words, every value, every amount below the width',100,2,ub=True,reach=['shift']),
 *[li('shift-%d'%w,'c18_bits','-DMODE=0 -DWORD=%d '%w+NX,'words of %d bits, every amount'%w,60,2,ub=True,reach=['shift']) for w in (8,16,32)],
 *[li('convert-'+L(f),'c18_bits','-DMODE=1 '+f,'between 1 to 4 64-bit words and built-in integers of 8 to 128 bits; '+t,60,1,reach=['convert']) for f,t in CFGS],
 *[li('convert-%d'%w,'c18_bits','-DMODE=1 -DWORD=%d '%w+NX,'between 1 to 4 words of %d bits and built-in integers'%w,60,1,reach=['convert']) for w in (8,16,32)],
 *[li('query-'+L(f),'c18_bits','-DMODE=2 '+f,'truth, sign and leading zeros of 1 to 4 words; '+t,60,1,reach=['query']) for f,t in (CFGS[0],CFGS[2])],
 *[li('query-%d'%w,'c18_bits','-DMODE=2 -DWORD=%d '%w+NX,'the same, words of %d bits'%w,60,1,reach=['query']) for w in (8,16,32)],
 li('double','c18_bits','-DMODE=3 -DLISTA=I1,U1,I2,U2','to double, values with up to 32 significant bits at the word boundary',60,1,reach=['float']),
 *[li('double-%d'%w,'c18_bits','-DMODE=3 -DWORD=%d -DLISTA=I1,U1,I2,U2,I3,U3 '%w+NX,'to double, every value of at most 53 bits, words of %d bits'%w,60,1,reach=['float']) for w in (8,16,32)],
 assume=['doubles are modelled as exact rationals, so only values that a double holds exactly are compared','shift amounts below the width (the documented range)'])
NOT_APPLICABLE={
 'C07':'no sound check was finished: for hierarchical results the anchor points are inserted behind the tracker, so merges name points it was never told of, and deciding whether that is intended needs a specification the code does not give',
 'C17':'no check was built: in the configuration compiled here the division of two words by one is inline assembly, which cannot be encoded, and proving the portable quotient estimation needs products and quotients of symbolic words that the solver back ends here did not decide even for plain signed products (see C16)',
 'C19':'distances along arcs are computed with sin, cos, atan2 and floating point rounding; the executor models doubles as exact rationals and has no theory for the transcendental functions',
 'C20':'attribution of offset points depends on the number of arc steps, which the code derives with floating point transcendental functions the executor cannot encode',
 'C22':'the rasteriser was not encoded in the time available: no check was built',
 'C24':'the Python binding is Cython-generated C over the CPython and NumPy C APIs; neither the interpreter nor NumPy can be encoded, and stubs for them would replace the behaviour the property is about (reference counts, buffer protocol, array creation)'}
