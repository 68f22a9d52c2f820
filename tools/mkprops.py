import json, os
P=[]
SM='every positive set of masses, couplings and mixing angle, and every on-shell 2-to-2 phase-space point above threshold, in any frame'
def add(id,title,st,over,text,why,files,mech,obs=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or [],hook_needed=None)))
TW='The shipped tests compare with tabulated numbers for two or three fixed mass sets and a fixed list of angles in the centre-of-mass frame, always with real Standard Model couplings, so a term that vanishes or coincides there is never seen.'
def sector(id,title,what,classes):
    add(id,title,what,['inputs','configurations'],'For every process of the group, '+SM+', with all particle widths set to zero.',TW,
      ['SM/%s.cpp'%c for c in classes.split()]+['source/particle.cpp','source/sproduct.cpp','source/process.cpp','source/propagator.cpp'],
      [('per-process amplitude, coupling and propagator expressions','SM/*.cpp constructors, set_masses, set_momenta, amp'),('spin and colour sums and averages','SM/*.cpp amp2')],
      ['amp2() after set_momenta() on an object built through the public constructor'])
g=open('/verif/tools/gen_adapters.py').read()
SECT=eval(g[g.index('SECT = ')+7:g.index('PROC = ')])
sector('S01','Purely leptonic processes give the tree-level squared matrix element',
 'For every 2-to-2 process among charged leptons and neutrinos the squared matrix element equals the tree-level Standard Model value (or the QED value for the QED-only variants), summed over final and averaged over initial spins, including the identical-particle factor. All photon, Z, W and Higgs exchange diagrams contribute with their correct couplings, masses and relative signs.',SECT['lepton'])
sector('S02','Quark and quark-lepton processes give the tree-level squared matrix element',
 'For every 2-to-2 process with quarks and leptons as the only external particles the squared matrix element equals the tree-level Standard Model value, summed over final and averaged over initial spins and colours, including the identical-particle factor. Gluon, photon, Z, W and Higgs exchange all contribute, with their correct colour weights and relative signs.',SECT['quark'])
sector('S03','Photon-fermion processes give the tree-level squared matrix element',
 'For every 2-to-2 process with a photon, a fermion line and possibly another photon, a Z or a Higgs boson the squared matrix element equals the tree-level Standard Model value, summed over final and averaged over initial spins and colours. The values offered for a fixed photon helicity equal the correspondingly restricted sums.',SECT['photon'])
sector('S04','Gluon processes give the tree-level squared matrix element',
 'For every 2-to-2 process with at least one external gluon the squared matrix element equals the tree-level Standard Model value, summed over final and averaged over initial spins and colours, including the identical-particle factor. The values offered for fixed gluon helicities equal the correspondingly restricted sums.',SECT['gluon'])
sector('S05','Fermion scattering with Z and Higgs bosons gives the tree-level result',
 'For every 2-to-2 process of two fermions with two bosons drawn from Z and Higgs the squared matrix element equals the tree-level Standard Model value, summed over final and averaged over initial spins and colours, including the identical-particle factor.',SECT['higgsz'])
sector('S06','Fermion scattering with W bosons gives the tree-level result',
 'For every 2-to-2 process of two fermions with one or two W bosons and possibly a photon, Z or Higgs the squared matrix element equals the tree-level Standard Model value, summed over final and averaged over initial spins and colours.',SECT['fermionw'])
sector('S07','Boson-only processes give the tree-level squared matrix element',
 'For every 2-to-2 process whose external particles are all photons, W, Z or Higgs bosons the squared matrix element equals the tree-level Standard Model value, summed over final and averaged over initial spins, including the identical-particle factor. The contact, s-, t- and u-channel contributions cancel as gauge invariance requires at high energy.',SECT['boson'])
SMF=['SM','source/particle.cpp','source/sproduct.cpp','source/process.cpp']
add('S08','Each spin amplitude is the amplitude of the helicity state it is labelled with',
 'For every process and every combination of spin labels the absolute square of the single-spin amplitude equals, up to the colour factor, the tree-level squared amplitude for the corresponding helicities: a positive label means positive helicity for an incoming and negative helicity for an outgoing particle, and a zero label of a vector boson means the longitudinal state.',
 ['inputs','configurations'],'Every process, every allowed spin label combination, '+SM+'.',
 'The shipped tests look at spin sums only (and a few sums with one photon helicity fixed), in which swapped or mislabelled spins cancel.',SMF,[('spin-label to spinor-index mapping','source/process.cpp get_spinor_spins, SM/*.cpp amp'),('massive spinors','source/particle.cpp')],['amp(spins)'])
add('S09','The squared matrix element is the normalised sum of its spin amplitudes',
 'For every process the squared matrix element equals a fixed constant of that process (initial spin and colour averaging, colour factor and identical-particle factor) times the sum of the absolute squares of its single-spin amplitudes over all spin labels, and it is finite and not negative.',
 ['inputs','configurations'],'Every process with both quantities, '+SM+', including thresholds, axis-aligned momenta and strong mass hierarchies.',
 'The shipped tests never call the single-spin amplitudes.',SMF,[('spin loops and averaging constants','SM/*.cpp amp2')],['amp2()','amp(spins)'])
add('S10','Squared matrix elements do not depend on the reference frame',
 'For every process, rotating or boosting all four momenta together leaves the squared matrix element unchanged to numerical accuracy. This includes frames with particles exactly at rest, exactly along or against a coordinate axis, or in a coordinate plane.',
 ['inputs'],'Every process, '+SM+', and every rotation and boost.',
 'The shipped tests use randomly rotated and boosted frames at fixed masses; they never reach exact axis directions other than the beam axis, particles at rest, or boosts of both signs.',SMF,[('angle and half-angle conventions','source/particle.cpp update'),('spinor products','source/sproduct.cpp')],['amp2() for transformed momenta'])
add('S11','Results depend only on the current masses and momenta, not on the history',
 'A process object that has been given other masses and momenta before, has been evaluated any number of times, or has rejected an inconsistent momentum returns the same squared and single-spin amplitudes as a freshly built object with the current masses and momenta. Objects living at the same time do not influence each other.',
 ['histories'],'Every process and every sequence of mass changes, momentum changes, rejected momenta and evaluations, interleaved over several objects, that ends with a successful momentum change.',
 'The shipped tests change masses and momenta in one fixed order and compare only spin sums with tables; no test compares a reused object with a fresh one.',SMF+['source/propagator.cpp'],[('cache reset','source/particle.cpp update, source/sproduct.cpp update'),('recomputation of derived couplings and masses','SM/*.cpp set_masses')],['amp2()','amp(spins)'])
add('S12','Widths enter through the propagator of the unstable particle they belong to',
 'For every process that takes the width of the Z, W or Higgs boson the squared matrix element follows the tree-level value with that particle, and only that one, propagating with a complex mass term -i M width. For processes where this prescription is not unique this holds at the resonance peak, and at zero width it is exact.',
 ['inputs','configurations'],'Every process with a width parameter, every non-negative width up to a tenth of the mass, on, near and away from resonances.',
 'Nearly all shipped tests use zero width, and those with a width stay away from the resonance.',SMF+['source/propagator.cpp'],[('denominators','source/propagator.cpp denominator'),('propagator construction','SM/*.cpp constructors')],['amp2()'])
add('S13','Electroweak and strong couplings enter with the right power',
 'Multiplying the electric charge and the strong coupling (at fixed masses and mixing angle) by factors scales the squared matrix element by the powers of these factors given by the vertices of the process. Processes with both electroweak and strong diagrams decompose into exactly the pure and interference powers.',
 ['inputs','configurations'],'Every process, '+SM+', every pair of coupling factors.',
 'The shipped tests use one value of each coupling.',['SM'],[('coupling prefactors','SM/*.cpp constructors and set_masses')],['amp2() of objects built with scaled couplings'])
add('S14','Identical particles and particle-antiparticle pairs can be exchanged',
 'For a process with two identical incoming or outgoing particles the squared matrix element is unchanged when their momenta are exchanged. The same holds for a particle-antiparticle pair on one side when the other side contains only photons, gluons, Z or Higgs bosons.',
 ['inputs'],'Every process with such a pair, '+SM+'.',
 'The shipped tests use symmetric tables but never exchange momenta.',['SM'],[('t- and u-channel symmetrisation','SM/*.cpp amp')],['amp2()'])
add('S15','The phases of the spin amplitudes belong to one choice of spin states',
 'For every process the single-spin amplitudes have, at each phase-space point, the relative phases of the tree-level amplitudes: after removing one phase per particle and spin label they agree with the tree-level amplitudes in sign and phase, not only in absolute value. Superpositions of spin states, such as linear polarisation or transverse spin, therefore come out right.',
 ['inputs','configurations'],'Every process, every allowed spin label combination, '+SM+'.',
 'The shipped tests look at sums of absolute squares only, in which every phase and relative sign between spin states cancels.',SMF,[('signs and spinor structures of each helicity branch','SM/*.cpp amp')],['amp(spins)','partial amplitudes of the coloured processes'])
add('S16','Evaluating momenta in one call equals setting them and evaluating',
 'The squared matrix element functions that take four momenta directly give the same tree-level value as setting these momenta and evaluating, whatever was set or evaluated before. Afterwards the object can be used in the usual way.',
 ['inputs','histories'],'Every process that implements such a function, '+SM+', fresh and reused objects.',
 'No shipped test calls these functions.',['SM/eeAA.cpp','SM/eAeh.cpp','SM/eeeeQED.cpp','SM/eemmQED.cpp'],[('one-call evaluation','amp2(mom1,mom2,mom3,mom4)')],['amp2(mom1,mom2,mom3,mom4)'])
PF=['source/particle.cpp','include/particle.h']
add('S17','Impossible spin labels never give an amplitude',
 'Asking any process for the amplitude of spin labels no state has, a zero label of a photon or gluon or a label other than plus or minus one of a massive fermion, gives exactly zero or an exception. The object gives its usual results afterwards.',
 ['inputs','histories'],'Every process, every impossible label of one or more photons, gluons and massive fermions combined with every possible label of the others.',
 'The shipped tests only use possible labels.',['SM','source/sproduct.cpp'],[('label branches','SM/*.cpp amp'),('spin checks','source/sproduct.cpp v')])
add('S18','Vanishing and tiny masses give the tree-level limit or an exception',
 'Squared matrix elements stay equal to the tree-level value when fermion or Higgs masses are many orders of magnitude below the energy, and when masses of particles that only propagate or of the Higgs boson vanish. An external fermion treated as massive and given the mass zero leads to an exception or the massless tree-level value, never to another number, and ordinary masses set afterwards give the ordinary results.',
 ['inputs','histories'],'Every process, every subset of fermion and Higgs masses zero or tiny, at construction or by a later change, '+SM+'.',
 'The shipped tests use a few fixed non-zero masses.',['SM','source/particle.cpp','source/sproduct.cpp'],[('mass cases','source/particle.cpp, source/sproduct.cpp'),('amplitudes','SM/*.cpp')])
add('S19','Squared matrix elements keep the digits of the number type',
 'At points without strong cancellations, away from poles, thresholds and exactly forward directions, squared matrix elements and polarised sums are accurate to at least 13 significant digits in the extended precision build. No constant, coupling, colour factor or intermediate result is rounded or truncated to fewer digits.',
 ['inputs','configurations'],'Every process, comparable or equal masses, every set of couplings and mixing angle, moderate energies and angles, boosts up to 0.9 of the speed of light.',
 'The shipped tables have at most 16 digits and are compared with a tolerance of 1e-9.',SMF,[('constants and colour factors','SM/*.cpp'),('angles, square roots and products','source/particle.cpp, source/sproduct.cpp')],['amp2() and polarised sums'])
add('C01','Momentum matrices represent the four-momentum',
 'The two 2x2 matrices of a particle are the upper- and lower-index bispinor forms of its four-momentum: each contains exactly the four momentum components, their determinant is the squared mass, their products are the squared mass times the identity, and the trace of the product of two different particles is twice their four-product. The four-product, the stored components and the stored mass agree with what was set.',
 ['inputs'],'Every on-shell momentum, massless or massive, at rest, along axes, soft or hard.',
 'The shipped unit tests draw a few random momenta with no exact zero components, and compare with tolerances that scale with one fixed energy range.',PF+['source/cmatrix.cpp'],[('matrix construction','source/particle.cpp umat lmat'),('matrix from momentum','source/cmatrix.cpp')])
add('C02','Massless helicity spinors satisfy their defining identities',
 'For every massless momentum the four helicity spinors solve the Weyl equation, their outer products give the momentum matrices, left and right forms are related by the antisymmetric tensor, square and angle forms by complex conjugation, and the absolute square of a spinor product of two momenta is twice their four-product, with antisymmetry and the correct relative sign between angle and square products.',
 ['inputs'],'Every massless momentum and pair of momenta, including exact axis directions and nearly collinear pairs.',
 'The shipped unit tests check a subset of the identities for a few random directions.',PF,[('helicity spinors','source/particle.cpp rangle langle rsquare lsquare')])
add('C03','Massive spin spinors satisfy their defining identities',
 'For every massive momentum and both spin states the spinors with upper and lower spin index solve the Dirac equation with the mass, their spin sums give the momentum matrices and plus or minus the mass times the identity, raising and lowering the spin index follows the antisymmetric tensor, and the two-spin matrix forms contain exactly the single spinors. Spin states are helicity states along the momentum and one of them goes over into the helicity spinor when the mass goes to zero.',
 ['inputs'],'Every massive on-shell momentum, at rest, along axes, non-relativistic and ultra-relativistic, and every spin and index position.',
 'The shipped unit tests use masses comparable to the momentum and random directions only.',PF,[('spin spinors','source/particle.cpp rangle langle rsquare lsquare with spin'),('half angles and sqrt(E+-p)','source/particle.cpp update')])
add('C04','Rotation and spin generators act correctly on the spinors',
 'For every particle the spin generators obey the angular-momentum algebra, the little-group generators acting on the Lorentz index of a massive spinor equal, with the appropriate sign, the spin generators acting on its spin index, and the third generator measures the helicity of massless spinors.',
 ['inputs'],'Every massive and massless on-shell momentum, every generator, chirality and index position.',
 'The shipped unit tests check some actions at random directions with fixed tolerances.',PF,[('generators','source/particle.cpp lorentz_* spin_*')])
add('C05','Spinor products equal the explicit chain of spinors and momenta',
 'A spinor product built for any bracket type, any end particles, any zero to six inner momenta and any allowed index positions evaluates, for every spin combination, to the left spinor times the alternating momentum matrices times the right spinor of the chirality required by the number of inner momenta. Reversing the chain gives the value required by the antisymmetric tensor.',
 ['inputs','programs'],'Every constructor form, every combination of massless and massive ends, every spin, every on-shell momenta, including repeated particles.',
 'The shipped unit tests cover only some forms with a few random momenta.',['source/sproduct.cpp','include/sproduct.h'],[('chain construction','source/sproduct.cpp constructors, update'),('evaluation','source/sproduct.cpp v')])
add('C06','Cached spinors and products always reflect the current momenta',
 'After any sequence of mass and momentum changes, reads, updates and rejected momenta, a particle returns exactly what a newly built particle with the same mass and momentum returns, and an updated spinor product exactly what a newly built product returns. A rejected momentum leaves the particle as it was, and a particle built without momentum is at rest.',
 ['histories'],'Every sequence of operations on particles and products.',
 'The shipped unit tests build each object once and never reuse it after a change or after an exception.',['source/particle.cpp','source/sproduct.cpp'],[('cache flags','include/particle.h, include/sproduct.h'),('reset','source/particle.cpp update; source/sproduct.cpp update')])
add('C07','Invalid use is rejected by an exception, valid use never is',
 'Giving a momentum that does not match the mass or is not a number, asking for helicity spinors of a massive or spin spinors of a massless particle, asking for a spin other than plus or minus one, a lower index at a massless end, the wrong number of spins of a product, momenta of a process without momenta, or an element index outside a vector or matrix raises an exception, independently of what was evaluated before. Valid requests do not raise.',
 ['inputs','histories'],'Every kind of invalid request at every point of every operation sequence, and the corresponding valid ones.',
 'The shipped unit tests check a handful of exceptions on fresh objects.',['source/particle.cpp','source/sproduct.cpp','source/process.cpp'],[('argument checks','source/particle.cpp, source/sproduct.cpp v and update')])
add('C08','Two-component vectors and matrices obey linear algebra',
 'All arithmetic, comparison, conjugation, determinant, element access, scalar multiplication and division (complex, real and integer), vector-matrix, matrix-vector and outer products give the exact textbook result to rounding, the compound assignments agree with the binary operators even when an operand is the object itself, and operands are never modified.',
 ['inputs','programs'],'Every operator, operand type and aliasing pattern, and every finite operand values.',
 'The shipped unit tests cover a few operators with hand-picked or random numbers and no aliasing.',['source/cmatrix.cpp','source/cvector.cpp','include/cmatrix.h','include/cvector.h'],[('operators','source/cmatrix.cpp, source/cvector.cpp')])
add('C09','Propagator denominators are p^2 - M^2 - i M Gamma',
 'For every mass, width and momentum the propagator denominator equals the squared momentum minus the squared mass minus i times mass times width, with the last mass and width set, whatever was set or evaluated before.',
 ['inputs','histories'],'Every mass, width and (on- or off-shell) momentum and every sequence of changes.',
 'There is no unit test for widths; the process tests mostly use zero width.',['source/propagator.cpp'],[('denominator','source/propagator.cpp')])
add('C10','Rotations and boosts of momenta are proper Lorentz transformations',
 'Rotating by any angle about any unit axis turns the spatial part by that angle in the right-handed sense and keeps energy and length. Boosting by any velocity below one gives the momentum seen by an observer moving with that velocity, preserves four-products, and is undone by the opposite velocity; zero angle and zero velocity change nothing.',
 ['inputs'],'Every momentum, every angle of any sign and size, every axis and every velocity of magnitude below one, including zero and axis-aligned ones.',
 'No unit test calls these functions directly; they are only used with random positive components inside the self-tests.',['source/utilities.cpp','include/utilities.h'],[('transformations','source/utilities.cpp rotate_momentum boost_momentum')])
add('C11','Vector-boson spin states decompose into the right spinor pairs',
 'For every list of vector-boson spin labels the number of terms, the normalisation and the enumerated spinor spin pairs together give each non-zero label the single aligned pair and each zero label both opposite pairs with amplitude one over square root of two, each combination exactly once. The fixed-argument forms agree with the list form.',
 ['inputs'],'Every combination of labels for one to six (and more, for the list form) vector bosons and every iteration index.',
 'The shipped unit tests enumerate only some of the short forms.',['source/process.cpp','include/process.h'],[('enumeration','source/process.cpp get_num_spin_loops get_spin_normalization get_spinor_spins')])
add('C12','The 2-to-2 self-check reports a failure exactly when a value is wrong',
 'The built-in comparison of a process with twenty tabulated values evaluates it at on-shell, momentum-conserving momenta of the stated angles in the stated frames, counts every point whose value is infinite, not a number, or outside the relative tolerance (1e-9, in boosted frames 1e-8), and counts no point inside it. It prints something exactly when it counts a failure. The parameter score is zero exactly when every point agrees and grows with the deviation.',
 ['inputs','programs'],'Every set of masses, incoming momentum, table and evaluated function, in the fixed, rotated, boosted and combined frames.',
 'The self-check is what the shipped tests use; nothing checks the checker on wrong values.',['source/process.cpp'],[('comparison loops','source/process.cpp test_2to2_amp2* score_2to2_amp2'),('kinematics','source/process.cpp set_test_*')])
add('C13','Random test momenta are on shell, in range and varied',
 'The random helpers return integers, reals and complex numbers inside the requested inclusive range covering all of it, massless momenta that are exactly massless to rounding, and massive momenta that match the returned mass, which itself lies between zero and the upper limit.',
 ['inputs'],'Every range and every draw.',
 'The shipped unit tests rely on these helpers without checking them.',['source/utilities.cpp'],[('generators','source/utilities.cpp choose_random_*')])
add('C14','Text output can be read back to the same numbers',
 'The Mathematica text of a number, vector or matrix is valid input syntax and evaluates to the original values to the printed digits (at least eighteen in extended precision), also in a program whose global locale writes numbers differently. The plain text of vectors and matrices shows each component in its place to the printed digits.',
 ['inputs'],'Every finite number, vector and matrix, tiny, huge, negative, zero.',
 'No shipped test looks at the text output.',['source/utilities.cpp','source/cmatrix.cpp','source/cvector.cpp'],[('formatting','double_to_Mathematica_string, to_Mathematica_string, to_string')])
add('C15','Helpers of the self-check build proper kinematics and messages',
 'The public helpers behind the self-check give the centre-of-mass energies and outgoing momentum of a 2-to-2 process above threshold and momenta of exactly the stated angle along and around the z axis. The random rotation and the random boost transform all four given momenta by one and the same proper rotation or boost, a different one at each call. The failure message shows the frame, masses, values and angle.',
 ['inputs'],'Every set of masses, incoming momentum above threshold, angle including forward and backward, and any four momenta to transform.',
 'The shipped tests call these helpers only inside the self-check, where all momenta lie in one plane.',['source/process.cpp'],[('kinematics','source/process.cpp set_test_* rotate_random_test_momenta boost_random_test_momenta print_test_message')])
add('C16','Copies of library objects are equal and independent',
 'Vectors, matrices, propagators, particles and spinor products that are copied, assigned (also to themselves), moved, swapped, returned by value or kept in containers have exactly the state of their source, and later changes of one never show in the other. A copied product refers to the same particles and follows their changes after its update.',
 ['histories'],'Every sequence of copies, assignments, moves, swaps, insertions, removals and changes of these objects, with or without values computed before.',
 'The shipped unit tests never change an object after copying it.',['include','source/particle.cpp','source/sproduct.cpp','source/cmatrix.cpp','source/cvector.cpp','source/propagator.cpp'],[('value semantics and caches','include/*.h')])
add('R01','No memory errors or undefined behaviour in any library or process call',
 'Constructing, configuring, evaluating, reusing and destroying any library or process object with valid or rejected input, including exceptional paths, never reads or writes outside an object, uses freed memory, leaks, or executes undefined behaviour.',
 ['inputs','histories','programs'],'Every public call sequence over all processes and library types.',
 'The shipped tests run without sanitizers, where such errors are usually silent.',['source','SM','include'],[('object lifetime and index arithmetic','source/*.cpp, SM/*.cpp')])
add('R02','No result depends on uninitialised memory',
 'No value used in a decision, result or output of any library or process object is read before it has been set, from construction on; results are the same whatever the memory contained before.',
 ['histories','inputs'],'Every public call sequence over all processes and library types, including evaluation before any momentum was given.',
 'The shipped tests run in fresh zeroed memory with one fixed call order.',['source','SM','include'],[('constructors','source/particle.cpp, SM/*.cpp, include/*.h')])
add('R03','Objects used in different threads do not interfere',
 'Threads that each use their own process, particle and spinor-product objects compute exactly the results of a single-threaded run, with no data race between them.',
 ['schedules'],'Every interleaving of threads with disjoint objects, over all processes.',
 'The shipped tests are single-threaded.',['source','SM'],[('no hidden shared mutable state','source/*.cpp, SM/*.cpp')])
add('R04','All build configurations compute the same amplitudes',
 'The library built in double instead of extended precision, and at any optimisation level, yields the same squared and single-spin amplitudes up to the rounding of the precision in use, and accepts the same physical momenta.',
 ['configurations','inputs'],'Every process, both precisions, unoptimised and optimised builds, '+SM+'.',
 'The shipped tests run in one configuration only.',['include/types.h','source','SM'],[('precision typedef','include/types.h'),('literal types and tolerances','source/*.cpp, SM/*.cpp')])
add('R05','The user example builds against the library and computes QED muon pairs',
 'The example process shipped for users compiles against the public headers, and gives the tree-level QED squared matrix element and spin amplitudes of muon pair production for all masses, charges and momenta, also after the masses are changed.',
 ['inputs','histories'],'Every positive electron and muon mass, charge and phase-space point.',
 'The example is not part of the shipped test build.',['user-dir/eemm.cpp','user-dir/include/eemm.h','user-dir/test.cpp','include/spinas.h'],[('example process','user-dir/eemm.cpp')])
add('R06','Calls do not disturb the surrounding program',
 'Constructing, evaluating and destroying process objects with valid input prints nothing. No call of the library or of a process changes the floating-point mode, locales, stream formats, signal handling, open files, working directory, environment, number of threads or the sequence of rand().',
 ['histories','programs'],'Every public call sequence over all processes and library types inside a program with any stream settings.',
 'The shipped tests print results themselves and look at no state of the program.',['source','SM','include'],[('no side effects','source/*.cpp, SM/*.cpp')])
add('R07','Repeated use does not accumulate memory',
 'Building and destroying processes and library objects, and evaluating one object again and again with changing masses and momenta, including rejected momenta and self-checks, does not let the memory held by the program grow without bound.',
 ['histories'],'Every process class and library type, any number of repetitions.',
 'The shipped tests are short and do not look at memory; memory still reachable at exit escapes leak detection.',['source','SM','include'],[('no growing hidden storage','source/*.cpp, SM/*.cpp')])
add('R08','Valid evaluations perform no invalid arithmetic',
 'Constructing a process, changing its masses, setting valid momenta and evaluating every squared, polarised and spin amplitude never performs an invalid floating-point operation, a division by zero or an overflow, and every result is finite, so that programs which trap these exceptions can use the library. The same holds for valid calls of the library types and the self-check.',
 ['inputs','histories'],'Every process class with positive masses of its massive legs, every physical point away from poles, before and after mass changes; library objects with valid momenta.',
 'A discarded NaN or infinity leaves no trace in the results the shipped tests compare.',['source','SM','include'],[('arithmetic of valid calls','source/*.cpp, SM/*.cpp')])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for p in P:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        import re
        n=len(re.findall(r'[.](?: |$)',p['statement'])); assert n<=3,(p['id'],n)
        f.write(json.dumps(p)+'\n')
print(len(P))
