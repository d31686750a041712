#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
I='include/adevs/'
SIM,GR,MO,SC,TI=I+'simulator.h',I+'graph.h',I+'models.h',I+'sched.h',I+'time.h'
HY,EL,CE,RK,TR,CV,FM,SP=[I+'solvers/'+x for x in('hybrid.h','event_locators.h','corrected_euler.h','rk_45.h','trap.h','cvode.h','fmi.h','spline.h')]
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m) for n,m in state],observe_at=list(obs),hook_needed=None)))
TESTS="The tests run a few fixed models (token rings, gcd, gpt) and compare printed output, "
p('C01','Events happen exactly when they are due',
 'The next event time reported by a simulator is always the smallest, over the models in it, of the time of the last change of state plus the time advance returned then, and it is infinity if no model has a finite one. Each step executes the events of exactly the models whose due time equals that minimum, so no event is early, late, lost or executed twice, and simulated time never decreases. A model with an infinite time advance has no internal event until it is changed by an input.',
 ['histories','inputs','programs'],'all models, all sequences of time advances and inputs, all time types',
 TESTS+'so the heap and the due times are exercised in a handful of orders; ties, reschedules to infinity and back, and long mixed histories are sampled by accident.',
 [SIM,SC,MO],[('schedule() after each transition; minPriority() is the next event time',SIM),('binary heap',SC)],
 [('tL,tN','time of last and of next event of a model'),('tNext','next event time of the simulator')],['Simulator::nextEventTime','Simulator::execNextEvent','Atomic callbacks'])
p('C02','Each active model makes exactly one, correct, transition per step',
 'In every step a model that is due and has no input makes one internal transition, a model that is due and has input makes one confluent transition, a model that is not due and has input makes one external transition, and no other model makes any transition. The transition gets exactly the bag of values delivered to the model in this step, and an external transition gets as elapsed time the time since the previous change of state of that model.',
 ['histories','inputs','programs'],'all models and couplings, all steps of all runs',
 TESTS+'which fixes the combinations of imminent and receiving models; they do not quantify over simultaneous events, several inputs, or histories.',
 [SIM],[('loop over the active set in computeNextState()',SIM),('input lists of the models',MO)],
 [('active','models with an input or a due event in this step')],['delta_int','delta_ext','delta_conf'])
p('C03','Output is produced once, before the change of state it precedes',
 'The output function of an ordinary model is called exactly once before each of its internal or confluent transitions, in the same step and before any model changes state, and it is never called for an external transition. All output of a step is computed from the states at the beginning of the step, and all of it is delivered in that step.',
 ['histories','programs'],'all models, all steps of all runs',
 TESTS+'they cannot show for all simultaneous events that every output precedes every transition.',
 [SIM],[('computeNextOutput() visits the imminent models before computeNextState()',SIM),('visitImminent()',SC)],
 [],['output_func'])
p('C04','Events are routed along every path of pins, once per path',
 'A value placed on a pin reaches each model once for every distinct loop free chain of pin to pin connections from that pin to a pin that is connected to the model, and it arrives on the last pin of the chain. It reaches no other model, a pair of pins or a pin and a model that were connected several times counts as one connection, and routing ends also if pins are connected in loops.',
 ['configurations','inputs'],'all graphs of pins and models',
 'The tests build about seven small graphs without diamonds or loops and compare a few route() results.',
 [GR,SIM],[('Graph::route()',GR),('computeNextOutput() routes each output and injected value',SIM)],
 [('pin_to_pin, pin_to_atomic','connections with instance counts')],['Graph::route','delta_ext input lists'])
p('C05','Models and connections in a graph are counted',
 'A model is a member of a graph exactly while it was added more often than it was removed, and a connection exists exactly while it was made more often than it was removed since its parts were last taken out. Removing something that is not there has no effect, and removing one of several instances leaves the model and its connections in place.',
 ['histories'],'all sequences of add, remove, connect, and disconnect operations',
 'The tests make a handful of short sequences; counts above two, interleavings of the four operations and removals of absent things are not reached.',
 [GR],[('instance counts in add_atomic(), remove_atomic(), connect(), disconnect()',GR)],
 [('atomic_instance_count','instances of each model')],['Graph::get_atomics','Graph::route'])
p('C06','Removing a pin or a model takes its connections with it',
 'When the last instance of a model is removed from a graph then every connection into that model is gone, whatever its count, and a later addition of the model starts without connections. Removing a pin removes one instance of each connection that begins or ends at the pin and leaves all other connections alone.',
 ['histories'],'all graphs and all later histories',
 'Only one test removes a pin and only a few remove a model, and none of them looks at connections into a pin or at a model that comes back.',
 [GR],[('remove_atomic() erases the model from the pin map; remove_pin() decrements connections',GR)],
 [],['Graph::route'])
p('C07','Changes of structure take effect together at the end of the step',
 'Changes of structure requested while a simulation is running, from inside of a transition or between steps, are invisible to routing and membership until all transitions of the current step are done. They are then applied completely, once, in the order of the requests, before the next event time is determined.',
 ['histories','schedules'],'all requests made in any callback of any model, in any order of the transitions',
 'The dynamic structure tests make one kind of change each in one fixed order.',
 [SIM,GR],[('provisional mode queues operations',GR),('computeNextState() drains the queue',SIM)],
 [('pending','queued operations')],['Graph::get_atomics','Graph::route','deliveries in the same step'])
p('C08','Models join and leave a running simulation cleanly',
 'A model that joins a running simulation starts with elapsed time zero at the end of the step that adds it and its time advance is honoured from there. A model whose last instance was removed gets no further calls, while a change in the instance count of a model that stays a member changes neither its elapsed time nor its next event. A model that left may join again like a new one.',
 ['histories','programs'],'all histories of additions and removals during a run',
 'The three dynamic structure tests add or remove a model once and at convenient times.',
 [SIM,SC],[('ADD_ATOMIC and REMOVE_ATOMIC in computeNextState()',SIM),('schedule() with infinity removes a model from the heap',SC)],
 [],['Atomic callbacks','Simulator::nextEventTime'])
p('C09','A coupled model behaves like its flattened parts',
 'At every moment the structure that is simulated for a tree of coupled models is the one obtained by adding the models and couplings of each coupled model once for every way it occurs in the tree, no matter whether parts were added or removed before or after the tree was given to the simulator and no matter how often parts are shared. Removing a coupled model removes all of its parts and couplings and nothing of the others, and changes to it afterwards have no effect on the simulation.',
 ['configurations','histories'],'all trees of coupled models with shared parts and all sequences of edits',
 'One test builds one tree, and tree edits are tested by a single example; removal of couplings and sharing are not looked at.',
 [MO,GR],[('assign_to_graph(), remove_from_graph() and forwarding of edits',MO)],
 [('atomic_components, coupled_components, pin_to_atomic, pin_to_pin','parts of a coupled model')],['deliveries','Simulator::nextEventTime'])
p('C10','Mealy outputs are a consistent solution that does not depend on order',
 'When the output of a step is complete, the output of every Mealy model that is due or has input is the one its appropriate output function gives for exactly the final input of that model (with no input if due only, with elapsed time and input if not due, with input if due), and a Mealy model that is neither due nor has input produces nothing. The values delivered to all models and reported to listeners are these final outputs only, whatever the order of evaluation was; provisional output that was withdrawn has no effect, neither as input nor as a transition.',
 ['schedules','configurations','inputs'],'all loop free networks of Mealy and other models, all evaluation orders (they depend on addresses in memory)',
 'The two Mealy tests use chains and a cellular automaton; diamonds in which output is withdrawn again, and the address dependent order, are not under control there.',
 [SIM,MO],[('calculate_mealy_output(), retract_mealy_output() and the orphaned set',SIM)],
 [('revisable_inputs, receivers, orphaned','provisional input and who gave it to whom')],['external_output_func','confluent_output_func','output_func','EventListener::outputEvent'])
p('C11','Loops of Mealy models are reported, and only loops are',
 'If in some step the output of a Mealy model would depend on itself through other Mealy models then computing the output ends with an exception that names a Mealy model of such a loop, it never hangs, crashes or completes. No such exception is thrown for models in which no loop of Mealy models exists.',
 ['configurations','schedules'],'all networks of Mealy models and all evaluation orders',
 'One test has a single two model loop.',
 [SIM],[('path set in calculate_mealy_output()',SIM)],[],['Simulator::computeNextOutput throws adevs::exception'])
p('C12','A negative time advance is reported with the model that returned it',
 'Whenever a model returns a negative time advance, at construction of a simulator, after a transition or when joining, the operation in progress throws the exception of this library and the exception names this model. No such exception is thrown for time advances that are zero, positive or infinite.',
 ['inputs','histories'],'all time advances of all time types at all points of a run',
 'Tests for this cover one model and one moment.',
 [SIM,I+'exception.h'],[('check in schedule()',SIM)],[],['adevs::exception::who'])
p('C13','Injected input is applied exactly once, at the time that was set',
 'Input injected into a simulation is routed like output from the injected pin and applied in the next step for which output is computed, all of it, exactly once; input that was cleared before is never applied. If the next event time was set to an earlier time then that step happens at this time, with external transitions only and the correct elapsed times, and the events that were due later still happen at their own times.',
 ['histories','inputs'],'all sequences of injections, clears, and settings of the next time',
 'A few tests inject one value at a time; they do not mix it with earlier times, several values and pending events.',
 [SIM],[('external_input and tNext',SIM)],[('external_input','injected values not yet used')],['Simulator::injectInput','clearInjectedInput','setNextTime'])
p('C14','Computing output is free of side effects and can be redone',
 'Computing the output of the next step changes neither the time nor the state of any model and performs no transition. It can be repeated any number of times, with other injected input or another next event time, and the step that follows depends only on the last computation, as if the others had not been made.',
 ['histories','schedules'],'all sequences of output computations before a step',
 'Tests compute output once per step, so what an abandoned computation leaves behind is not seen.',
 [SIM],[('computeNextOutput() undoes the prior calculation first',SIM)],[('inputs, outputs of the active models','result of the last computation')],['Simulator::computeNextOutput','computeNextState'])
p('C15','Listeners see exactly what happens',
 'Each registered listener is told of every output value that a model finally produces in a computation of output, of every input value that a model gets in a transition, and of every change of state after it has happened, each exactly once, with the right model, pin, value and time, and it is told of nothing else. All listeners get the same notifications.',
 ['histories','programs'],'all runs with any number of listeners',
 'Two listener tests check one relay model.',
 [SIM],[('loops over listeners in computeNextOutput() and computeNextState()',SIM)],[],['EventListener callbacks'])
p('C16','The event list is a priority queue over models',
 'After any sequence of insertions, moves and removals the event list reports the smallest time of its members (infinity if there are none), a member with this time as the first one, and all members with this time as imminent, each once. Rescheduling moves a model to its new time, a new time of infinity takes it out, and the capacity is not limited.',
 ['histories'],'all sequences of operations on any number of models',
 'The heap tests insert random times but compare only the minimum, and the simulator tests use small heaps.',
 [SC],[('percolate_up(), percolate_down(), enlarge()',SC)],[('heap','binary heap of models')],['Schedule'])
p('C17','Super dense time is ordered and added consistently',
 'Super dense times are totally ordered, first by the real part and then by the integer part, and all six comparison operators agree with this order. Adding a length with a non-zero real part adds the real parts and takes over the integer part of the length, otherwise it adds the integer parts; the difference of a later and an earlier time is a length that, added to the earlier time, gives the later one again, and writing and reading a time with sufficient stream precision returns the same time.',
 ['inputs'],'all pairs and triples of times',
 'The test checks about a dozen literal values.',
 [TI],[('operators of sd_time',TI)],[],['sd_time operators'])
p('C18','Simulation in super dense time separates consecutive events',
 'With super dense time each step returns its event time plus the smallest interval, so that a state entered in one step is left no earlier than in a later instant and the times of successive steps strictly increase even if time advances are zero. Elapsed times and due times follow the rules for adding and subtracting super dense times.',
 ['histories','programs'],'all models run with a super dense clock',
 'Two tests with fixed zero time models.',
 [SIM,TI],[('computeNextState() adds adevs_epsilon()',SIM)],[],['execNextEvent return value','delta_ext elapsed time'])
p('C19','Tolerant time treats nearby times as simultaneous',
 'The tolerant comparison says equal exactly if the two numbers differ by at most the tolerance scaled by the power of two that belongs to the larger one in magnitude, otherwise it says which is larger; it is antisymmetric and all comparison operators agree with it. A simulation that uses this clock executes events whose times are equal in this sense in one step.',
 ['inputs','histories'],'all pairs of numbers and tolerances; all runs with this clock',
 'The test compares two fixed runs and a few numbers.',
 [TI,'src/adevs.cpp'],[('fcmp()','src/adevs.cpp'),('operators of double_fcmp',TI)],[],['double_fcmp operators'])
p('C20','Hybrid models make their own events at the right time and state',
 'A hybrid model has an internal event exactly when its time event is due or its event finder reports a state event; the output function and then the internal event function of the system are called once at that time with the continuous state at that time and with flags that tell which state events and whether the time event happened. Integration steps that end without an event change only the continuous state and produce no output.',
 ['histories','inputs'],'all systems, solvers and event finders, all sequences of steps',
 'The bouncing ball tests compare positions with a tolerance; they do not observe flags, calls and their order.',
 [HY],[('tentative_step(), delta_int(), output_func()',HY)],[('q, q_trial, sigma, event','state, tentative state, step, event flags')],['ode_system callbacks'])
p('C21','Hybrid models take input at the right time and state',
 'When input reaches a hybrid model, its continuous state is advanced to exactly the time of the input, the end of the step is announced to the system, and the external event function is called once with the time since the last discrete event; if the model has an event of its own at that time then the confluent event function is called instead. A state event that is found to lie before the input is handled together with it and its output is produced exactly once, immediately afterwards, without any other effect on the model.',
 ['histories','inputs'],'all times of input relative to steps and events',
 'One test sends inputs to a bouncing ball and checks a single flag.',
 [HY],[('delta_ext(), delta_conf(), missedOutput',HY)],[('e_accum','time since the last discrete event'),('missedOutput','output of a state event found at an input')],['ode_system callbacks'])
p('C22','Event finders report the first state event in the interval',
 'If an event function changes its sign in the searched interval, monotonically, then the event finder reports an event or shortens the interval to end before it, and otherwise it reports none and leaves the interval as it was. A reported event lies within the tolerance of the first sign change and not before it, exactly the event functions whose sign differs at that time are flagged, and the returned state is the state at the returned time.',
 ['inputs'],'all trajectories, event functions, tolerances and search modes',
 'The tests use one ball and look at the trajectory with a coarse tolerance.',
 [EL,SP],[('find_events() in event_locator_impl and fast_event_locator',EL),('spline',SP)],[],['find_events arguments and results'])
p('C23','Integrators advance time by the step they report',
 'An integrator asked for a step takes a step that is positive and no longer than the requested limit and its own maximum step, reports this step, and returns the state at its end; asked to advance by a given time it advances by exactly this time, in as many steps as are needed.',
 ['inputs','histories'],'all systems, limits, maximum steps, error tolerances and sequences of calls',
 'The tests integrate one system with one setting.',
 [CE,RK,TR],[('integrate() and advance()',CE),('integrate() and advance()',RK),('integrate() and advance()',TR)],[],['ode_solver::integrate','ode_solver::advance'])
p('C24','Integrators are exact for the polynomials of their order',
 'Up to rounding (for the implicit integrator: up to its solver tolerance), an integrator of order n returns the exact solution for systems whose solution is a polynomial in time of degree up to n; n is two for the explicit and the implicit low order integrators and four for the other.',
 ['inputs'],'all polynomials of that degree, all steps',
 'The tests integrate one system and accept errors of one per cent or so.',
 [CE,RK,TR],[('trial_step()',CE),('trial_step()',RK),('step() with KINSOL',TR)],[],['ode_solver::integrate'])
p('C25','The CVODE wrapper keeps solver, state and clock in step',
 'The wrapper calls the internal event function only when the integration reported an event, and at other integration end points it only moves on; at an input it restarts the solver from the state and time of the last change, integrates exactly to the time of the input and then calls the external event function with the current time, or the confluent one if an event is reported there. The state that is kept for restarting is always the one after the last change, and output is produced only for events. Asking for the time advance again changes neither the state nor the answer.',
 ['histories','inputs'],'all sequences of integration results and inputs',
 'One test with one model.',
 [CV],[('ta(), delta_int(), delta_ext(), delta_conf(), output_func()',CV)],[('y_checkpoint, t, t_projected, has_event','restart state, its time, end of the integration, event there')],['cvode_* callbacks'])
p('C26','The FMI wrapper follows the calling rules of the standard',
 'The wrapper initializes an FMU once, asks for derivatives, event indicators and continuous time only in continuous time mode, and handles discrete events only in event mode in which it iterates until no new discrete states are needed; time and continuous states are set before they are used and no completed step goes back in time. After each event the state is read back from the FMU, and the FMU is terminated and freed exactly once. An FMU that is not an FMI 2.0 model for model exchange is refused with an exception, and the context, the temporary directory and what was loaded of it are let go of.',
 ['histories','configurations'],'all FMUs and all sequences of steps, events and inputs',
 'The FMI tests need the FMI library and compiled FMUs; none is run in the test suite here.',
 [FM],[('init(), der_func(), state_event_func(), postStep(), *_event(), iterate_events()',FM)],[('cont_time_mode, next_time_event, t_now','mode, next time event, time of the last completed step')],['calls of the fmi2_import functions'])
p('C27','The FMI wrapper passes values, events and derivatives faithfully',
 'Variables are read and written under their own names with the type they have, time events announced by the FMU become due at the announced time and a step for which the FMU asks for an event is followed by one at once. The Jacobian given to solvers has in row i and column j the derivative of state i with respect to state j as the FMU gives it, with zeros for time.',
 ['inputs','configurations'],'all FMUs, variables and states',
 'The FMI tests are not run here, and they do not look at the Jacobian.',
 [FM],[('get_variable(), set_variable(), time_event_func(), get_jacobian()',FM)],[],['values given to and taken from the FMU'])
p('C28','Results do not depend on addresses or order of construction',
 'Two simulations of the same model produce the same next event times, the same bags of input and output and the same transitions in every step, no matter where in memory the components are and in which order components and couplings were added. (The structure is static or changed by requests of at most one component per step, and there is no loop of Mealy models.)',
 ['schedules','configurations'],'all placements in memory and all orders of construction of the same model',
 'The sets in the implementation are ordered by address; a test sees one placement.',
 [SIM,GR,MO],[('bags of values; sets ordered by pointer',SIM)],[],['callbacks and listeners'])
p('C29','Components live as long as they are needed and no longer',
 'A model stays alive while it is a member of the structure being simulated or is part of a pending change, even if its creator has let go of it, and it is released once it is no longer a member and nobody else holds it. A hybrid model deletes the system, solver and event finder given to it exactly once when it is deleted.',
 ['histories'],'all histories of additions, removals and releases by the creator',
 'No test looks at the lifetime of components.',
 [GR,HY,SIM],[('shared pointers in Graph and in queued operations',GR),('destructor of Hybrid',HY)],[],['destructors'])
p('C30','Pins have unique identities that copies share',
 'Two pins created separately are always different, a copy of a pin or of a value on a pin has the same identity as its source also after assignments, and the comparison operators of pins form a total order that agrees with identity.',
 ['histories','inputs'],'all sequences of creations, copies and assignments, also from several threads',
 'No test compares pins beyond their use in graphs.',
 [MO,'src/adevs.cpp'],[('atomic counter',MO)],[],['pin_t operators'])
p('C31','Splines reproduce cubics',
 'A spline that is given the values and derivatives of a state at both ends of an interval returns, for each variable and each point of the interval, the value of the one cubic polynomial that has these values and derivatives, and it can be given new data for another interval any number of times.',
 ['inputs'],'all intervals, data and points',
 'No test looks at interpolated states; event finders that use them are only seen through the events of two models.',
 [SP],[('init(), interpolate()',SP)],[],['spline::interpolate'])
p('C32','Integrators keep the error of each step within the tolerance',
 'A step that an explicit integrator chooses has, in every state variable, an error of at most the given tolerance, where the error is the one a companion method of lower order makes in this step (the method of Euler for the low order integrator, the classical method of order four for the other one). A trial step that leads to where the derivatives have no value (they are not numbers) counts as one with an error that is too large, for the implicit integrator as one for which its solver failed. The implicit integrator takes the difference from the method of Euler as its error and limits its next step by it, and every state that it returns solves the equation of the trapezoidal rule up to the tolerance of its solver, also after the solver failed for a longer step.',
 ['inputs','histories'],'all systems, tolerances, maximum steps and sequences of calls',
 'The tests compare trajectories of a few systems with a coarse tolerance, which a looser error control still meets.',
 [CE,RK,TR],[('trial_step(), integrate()',CE),('trial_step(), integrate()',RK),('step(), integrate()',TR)],[],['ode_solver::integrate'])
p('C33','The event list that keeps idle models is a priority queue',
 'The schedule of schedule2.h accepts a model exactly if it is not in it, updates and removes it exactly if it is, and reports every other request with an exception without any effect. After any sequence of requests, with no model updated except at its addition, by an update of it or by an update of all, it reports the number of its models, the smallest time they had then, a model with this time as the first one and all models with it as imminent, each once, and the first one is the one that is taken out.',
 ['histories'],'all sequences of operations on any number of models',
 'The test of this header is disabled in the build, and it only removes the first model or the only one.',
 ['include/adevs/schedule2.h'],[('percolate_up(), percolate_down(), remove_index()','include/adevs/schedule2.h')],[('model_heap, model_index','binary heap of models and the place of each')],['Schedule'])
p('C34','Simulations in one process do not influence each other',
 'Each of several simulations in one process, which may be made, run and deleted by the models of another one, take turns, or run in different threads, behaves in every step as if it were alone. This holds for simulators with all kinds of models, for the integrators and event finders, for the wrappers of solvers and of FMUs, and for simulations that use the same pins, as long as they share no models, graphs or systems of equations.',
 ['schedules','programs','histories'],'all programs, all nestings and interleavings of several simulations',
 'Each test runs one simulation at a time in a process of its own, so state that is shared by accident (a static buffer, a counter) never meets a second user.',
 [SIM,GR,MO,EL,CE,RK,TR,HY,CV],[('all state of a simulation is in its own objects',SIM),('identities of pins come from a shared counter',MO)],[('active, orphaned, imminent lists','scratch data of a step')],['all callbacks of models and systems','EventListener'])
p('C35','Models can be simulated again after a simulation ended',
 'A simulator of models that an earlier simulator, deleted or not used further, has simulated behaves as if the models were new in their present state: its time starts at zero and nothing that was pending for a model or waiting to be delivered in the earlier simulation has an effect, even if that simulation ended with an exception in the middle of a step. Changes of a graph or a coupled model between two simulations take part in the next one. The same holds for hybrid models and wrappers of solvers, and for a model that is taken out of a simulation and put back later. An exception that a model throws reaches the caller of the simulator.',
 ['histories','programs','fault_sequences'],'all sequences of simulations of the same models, ended after any step, in the middle of one, or by an exception',
 'Every test makes its models for one simulator and deletes both at the end.',
 [SIM,GR,MO,SC],[('the constructors forget what was left in the models',SIM),('a coupled model knows whether its graph exists',MO)],[('inputs, outputs, place in the event list','what a simulator keeps in a model')],['Simulator constructors','all callbacks of models'])
p('C36','Nothing that the library allocates outlives what it was allocated for',
 'All memory that the library uses for graphs, models, coupled models, event lists, simulators, hybrid models, solvers, event finders, splines and wrappers of other simulation software is given back when these are deleted, each piece once. This holds however the simulation went: also after exceptions in the middle of a step, models or graphs that are shared or simulated again, pending changes that were never applied, values never delivered, and a model of an FMU that is refused, which leaves no context, parsed model or temporary directory behind either.',
 ['histories','programs','fault_sequences'],'all programs that delete what they made, and all ends of their simulations',
 'No test looks at memory, and the tests that provoke an exception end at once after it.',
 [GR,SIM,MO,SC,I+'schedule2.h',HY,EL,CE,RK,TR,CV,FM,SP],[('destructors',HY),('shared ownership of models and graphs',GR),('loading an FMU',FM)],[],['memory in use after a program ran'])
p('C37','Networks of hybrid and discrete models run as one simulation',
 'When hybrid models are coupled to each other and to discrete models in one simulation, each step takes place at the least time at which one of them is due (a state event, a time event, the end of its integration step or a discrete event), or at the time set by the user; exactly the models that are due or get input change, each once and with the kind of transition and the elapsed time that follow from it, all of the output of a step is computed before any model changes, and it reaches, unchanged and once for every path, the models it is coupled to, also through Mealy models. A hybrid model that gets input in the middle of its integration step is brought to the state at that time first; the events found by one model do not disturb the integration of the others.',
 ['programs','histories'],'all networks of hybrid, Moore and Mealy models, all systems of equations and all event times',
 'The tests of hybrid models simulate one of them at a time or a single pair without simultaneous events.',
 [HY,SIM,GR],[('Hybrid in a network','include/adevs/solvers/hybrid.h')],[('trial state, sigma and the time since the last change of each hybrid model',HY)],['der_func, state events, ta, output and transitions of all models'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
