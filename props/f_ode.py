P('I01', [U('rkf.cpp', 'h_fehl h_drive h_drive2 h_const h_rkf_flags', flags=['-DEIGEN_NO_DEBUG'])],
  title='Runge-Kutta-Fehlberg integration takes correct, error-controlled steps',
  stmt='One RKF45 step evaluates the derivative at exactly the abscissae and states of Fehlberg\'s tableau and returns the fifth-order combination. A step is accepted, and the solution advanced to its end, if and only if the embedded error estimate of every component is within relative tolerance times the mean magnitude at both ends plus absolute tolerance; a rejected step is retried from the same point with a step between one tenth and the whole of it; an accepted one is followed by a step at most five times longer. Steps never pass the output point; completion (flag 2) means time equals the output time. Invalid input gives flag 8, a too small relative tolerance flag 3, both without touching the state.',
  over=['inputs', 'histories'], text='arbitrary derivative values at every evaluation, all states and start times in the bound, forward and backward intervals', why='The shipped example never takes an RKF45 step, and step control depends on every derivative value returned.',
  files=['var/ode_solvers/rkf45_fehl.cpp', 'var/ode_solvers/rkf45_rkfs.cpp', 'var/ode_solvers/rkf45.hpp'],
  mech=[('stages', 'var/ode_solvers/rkf45_fehl.cpp fehl'), ('error control, step selection, flags', 'var/ode_solvers/rkf45_rkfs.cpp rkfs')],
  obs=['arguments of every derivative call, returned time, state and flag'],
  bounds='1..2 equations, one attempted step with arbitrary derivatives plus the step size chosen next, up to 3 steps (5 thorough) with a constant derivative; tolerances 1e-3/1e-4; real arithmetic')
_se = {'h_step2': {'shards': 4}, 'h_step3': {'shards': 4}, 'h_steps': {'shards': 4}}
def sg(ent, copy):
    fl = ['-DEIGEN_NO_DEBUG']
    if copy:
        return U('sgode.cpp', ent, inc=[V + 'stubs/ode'] + INC + ['$REPO/src/integrators'], flags=fl + ['-DSRC_COPY'], eopts=_se)
    return U('sgode.cpp', ent, inc=[V + 'stubs/ode'] + INC, flags=fl, eopts=_se)
SG = 'h_step1 h_step2 h_step3 h_steps h_intrp'
P('I02', [sg(SG, 0), sg(SG, 1)],
  title='Multistep integrator steps are error controlled and exact to their order',
  stmt='For both copies of the Shampine-Gordon integrator: a step of order k from a consistent history of k+1 points accepts the solution if and only if the local error estimate |h (g_k - g_k+1)| ||f(predicted) - prediction|| is within the tolerance; the accepted solution is the Adams predictor-corrector value on the actual, unequally spaced, points (exact when the derivative is a polynomial of degree k), with the derivative re-evaluated there and the divided differences updated to the new point. A rejected step restarts from the same point and history with half the step. The order changes by at most one and the next step is between half and twice the one taken, in the same direction. Interpolation inside the last step is exact for the polynomial the history represents.',
  over=['inputs', 'histories'], text='all polynomial derivatives of degree k with coefficients in the bound, all tolerances in the bound (accepting and rejecting), equal and unequal step histories, forward and backward', why='The shipped example integrates one orbit; step rejection, the unequal-step coefficients and the roundoff term are reached for special values only.',
  files=['var/ode_solvers/sgode_step.cpp', 'var/ode_solvers/sgode_intrp.cpp', 'src/integrators/sgode_step.cpp', 'src/integrators/sgode_intrp.cpp'],
  mech=[('coefficients, prediction, error test, correction, order and step choice', 'src/integrators/sgode_step.cpp step'), ('interpolation', 'src/integrators/sgode_intrp.cpp intrp')],
  obs=['solution, derivative, divided differences, order, next step, arguments of derivative calls'],
  bounds='one equation, order 1..3 per step (1..4 interpolation), 1 step (2 in sequence for orders 1..2, 3 thorough), three step-ratio histories, one rejection (two in sequences), polynomial coefficients in [-4,4], tolerance [1e-3,10]; real arithmetic')
SD = 'h_de h_de_flags h_de_weights'
P('I03', [sg(SD, 0), sg(SD, 1)],
  title='Multistep integrator returns the solution at the requested output point',
  stmt='For both copies of the integrator driver: a valid call reports flag 2, time equal to the output point and the solution there; subsequent calls continue from it in either direction, changing direction or changing whether the output point may be passed included; when it must not be passed, no derivative is evaluated beyond it, and none is ever evaluated behind the time the call starts from. The error weights of a step are relative tolerance times magnitude plus absolute tolerance. Equal times, negative or zero tolerances and a continuation from another time give flag 6 with nothing evaluated or changed; a tolerance below what the arithmetic allows gives flag 3 and raises it to what does.',
  over=['inputs', 'histories'], text='all start times, amplitudes and weights in the bound over sequences of output requests in both modes', why='The example asks for one output after another in one direction, one mode, one system.',
  files=['var/ode_solvers/sgode_de.cpp', 'src/integrators/sgode_de.cpp'],
  mech=[('driver', 'src/integrators/sgode_de.cpp de'), ('restart state', 'src/integrators/sgode.hpp')],
  obs=['returned flag, time, solution; times of derivative calls; tolerances'],
  bounds='two equations with linear derivative in time and state of symbolic amplitude, 2 output requests (3 thorough), output spacings 0.25..3 of either sign; real arithmetic')
