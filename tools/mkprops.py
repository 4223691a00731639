"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json
import os

C, L, R, M, O, K, S = ('hapuamod/core.py', 'hapuamod/loadmod.py', 'hapuamod/riv.py', 'hapuamod/mor.py',
                       'hapuamod/out.py', 'hapuamod/coast.py', 'hapuamod/synth.py')
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a['state'] = [dict(name=n, meaning=m) for n, m in state]
    if observe:
        a['observe_at'] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))


NO_RUN = ('The existing tests only call the two hydraulic solvers on hand-made channels; no test runs the model loop, so '
          'none of the %s this ranges over is ever reached.')

prop('C01', 'Every simulation reaches its end time, even when single solves fail',
     'A run started with a valid configuration and complete forcing ends normally in a bounded number of steps with its last '
     'step exactly at the configured end time, through floods, storms, surges, closure, breach and truncation. This also holds '
     'when individual linear solves of the water model fail, are singular, do not converge or return unusable numbers: the run '
     'carries on from the quasi-steady solution. Nothing that the run records for the open water, the beds or the shoreline is '
     'missing or infinite.',
     ['inputs', 'histories', 'fault_sequences', 'configurations'],
     'All starting coasts and outlet states, weather sequences and numerical settings in documented ranges, and every placement '
     'of failing, singular, inaccurate or non-finite linear solves.',
     NO_RUN % 'weather histories or solver failures',
     [C, R, M], [('main loop, timestep limited to the time left, fallback to steady', C + ':main'),
                 ('singular matrix and non-convergence handling', R + ':solveFullPreissmann'),
                 ('adjustments that keep the geometry usable', M + ':updateMorphology')])

prop('C02', 'Records are written at the configured times and only there',
     'Both result files hold one record at the start time, and record n of each file is written at the first step that ends at or '
     'after start + n x interval and has no record in that file yet: times strictly increase, a step is recorded at most once and '
     'nothing is recorded before it is due. What a record '
     'contains for a given time does not depend on how often records are written.',
     ['configurations', 'histories'],
     'All pairs of output intervals (shorter than, equal to, longer than and incommensurable with the step), all adaptive step '
     'sequences and all durations.',
     NO_RUN % 'step sequences and output intervals',
     [C, O], [('due-time bookkeeping of the two files', C + ':main'), ('append of one record', O + ':writeCurrent'),
              ('append of one record', O + ':writeTsOut')])

prop('C03', 'The two result files agree with each other and with the starting state',
     'Wherever both files hold a record of the same time, every quantity they share has the same value, and the coordinates, '
     'units, reference date and parameters stored in the files are those of the run. Records hold the model values rounded '
     'once to the precision of the file, and the first record of a run started from an earlier record repeats the state of '
     'that record.',
     ['histories', 'configurations'],
     'All histories, all output intervals, all start dates and all starting records.',
     NO_RUN % 'result files',
     [O, C, L], [('file layout and units', O + ':newOutFile'), ('record layout', O + ':writeCurrent'),
                 ('record layout', O + ':writeTsOut'), ('reading a state back', O + ':readTimestep')])

prop('C04', 'Written records survive a crash and write errors are never swallowed',
     'When the process is killed between two records, every record written before is complete, readable and identical to that '
     'of an undisturbed run, and a reader that opens the files between two records sees a complete prefix. When writing or '
     'closing a result file fails because the disk is full or broken, the run ends with an error instead of reporting success '
     'with records missing or altered.',
     ['crash_points', 'fault_sequences'],
     'Every point between two records at which the process may die, every write, extend or truncate operation of every record '
     'that may fail with any I/O error, once or from then on, and every instant at which a reader may look.',
     'No test writes a result file, lets a write fail or kills the process.',
     [O, C], [('open, append, close for each record', O + ':writeCurrent'), ('open, append, close for each record', O + ':writeTsOut'),
              ('file creation', O + ':newOutFile')])

prop('C05', 'A run continued after a crash is the run that was never interrupted',
     'If a run is killed between two records and then continued from the last record on disk with the '
     'continue option, the records that follow equal those of the uninterrupted run. The chosen record is the one closest to the '
     'requested time, and the continued run keeps open and closed outlets, relic channels and water state as recorded.',
     ['crash_points', 'histories'],
     'Every record of every history as the point of interruption, with full-precision records and a fixed morphological step; '
     'chains of several interruptions.',
     'No test starts from a result file or compares an interrupted run with an uninterrupted one.',
     [O, L, C], [('reading a record as initial state', O + ':readTimestep'), ('choice of the record', O + ':closestTimeIx'),
                 ('hotstart and continue option', L + ':loadModel'), ('initial hydraulics only when not hotstarted', C + ':main')])

prop('C06', 'Results depend only on the input files',
     'The same input files give bit-identical records whatever the wall clock shows, whatever state the global random number '
     'generators and uninitialised memory are in, whatever hash seed the interpreter uses and whatever ran in the same process '
     'before. Several runs in one process, one after the other or interleaved at any step, do not influence each other.',
     ['schedules', 'histories', 'configurations'],
     'All interleavings of several runs at their solver and file operations, all states of the ambient environment, all '
     'histories including those that perturb a singular matrix.',
     'Tests run once in one environment; nothing compares two runs or varies the environment.',
     [C, R, L, S, O], [('perturbation of a singular matrix', R + ':solveFullPreissmann'),
                       ('creation stamp is the only use of the clock', O + ':newOutFile'),
                       ('seeded generator of synthetic flow', S + ':shotNoise')])

prop('C07', 'Starting and fallback water profiles are the steady profile of the forcing',
     'The water state of the first record of a fresh run, and of an open channel after a step in which the unsteady solution '
     'failed, is the steady gradually varied profile for the river flow and sea level of that time: the same discharge through '
     'every section, sea level (or critical depth if that is higher) at the downstream end, and an energy line that falls by '
     'friction, with critical depth only where no sub-critical depth exists. The fallback is reported as a warning and later '
     'steps continue from it.',
     ['fault_sequences', 'inputs', 'histories'],
     'All starting coasts, flows and sea levels, and every step of every open-outlet history as the one in which the solver '
     'fails, in every way it can fail.',
     'The tests check the steady solver on two channels and never make the unsteady solver fail inside a run.',
     [R, C], [('steady solution', R + ':solveSteady'), ('fallback inside the unsteady solver', R + ':solveFullPreissmann'),
              ('fallback around the unsteady solver', C + ':main'), ('initial profile', C + ':main')])

prop('C08', 'No water is created or lost',
     'Over every hydraulic step the water stored in river, lagoon (online and offline) and outlet changes by the river inflow '
     'minus the outflow minus seepage through the barrier, to within the solver tolerance, with the prescribed inflow at the '
     'upstream end and sea level (open) or no outflow (closed) at the downstream end; momentum balances in each reach in the '
     'same way. Seepage acts on the whole length of the lagoon and follows the level difference to the sea.',
     ['inputs', 'histories'],
     'All geometries the coast evolves into, open and closed, channels to either side, all floods, tides and permeabilities, '
     'every step.',
     'The tests follow a few fixed channels; widths, offline storage, seepage and closure as they evolve in a run are not reached.',
     [R, C], [('implicit scheme', R + ':solveFullPreissmann'), ('channel geometry and offline storage', R + ':assembleChannel'),
              ('carry-over between steps', R + ':storeHydraulics')])

prop('C09', 'Every change of bed, bank, crest and shoreline is paid for by sediment transport',
     'From one step to the next the river, lagoon and outlet beds and banks, the barrier crest and back, the shoreline and the '
     'outlet end change exactly by what the recorded bedload, longshore and cross-shore rates deliver or remove, limited to the '
     'maximum change per step. Where water or sea meets a bank (truncation, elongation, filling, merging, cliff retreat, barrier '
     'restoration) the adjustment is the documented volume-preserving one and touches only the transects concerned.',
     ['histories', 'inputs'],
     'Every step of every history, including those with several adjustments at once, outlets to either side, relic channels.',
     NO_RUN % 'sediment exchanges',
     [M, C], [('rates of change and their application', M + ':updateMorphology'), ('collision handling', M + ':updateMorphology')])

prop('C10', 'The recorded coast is always physically possible',
     'In every record the sequence cliff, lagoon edge, channel banks, shoreline is in order at every transect, channel beds and '
     'both barrier crests are known exactly where a channel exists, the lagoon stays open where the river enters, the outlet end '
     'of an open outlet stays at least one transect inside the domain and an open outlet runs through an unbroken channel from the lagoon to its end. The cliff never '
     'advances, the upstream river bed stays fixed and the ends of the shoreline move only at the prescribed erosion rate.',
     ['histories', 'inputs'],
     'Every record of every history over all starting coasts, weather and settings.',
     NO_RUN % 'coast evolutions',
     [M, R], [('ordering adjustments 1 to 8, intersections, breach creation', M + ':updateMorphology'),
              ('use of the geometry', R + ':assembleChannel')])

prop('C11', 'The adaptive step obeys its limits',
     'Every morphological step lies between the configured minimum and maximum, except that the last one may be shorter to end '
     'on time, and nothing moves by more than the permitted change in a step outside the documented collision adjustments; when '
     'that needs capping at the minimum step a warning is logged. The step is not reduced without need and grows again when '
     'changes are small.',
     ['histories', 'configurations'],
     'All ranges of minimum, maximum and hydraulic step, all histories with quick and slow change.',
     NO_RUN % 'step sequences',
     [M, C], [('adaptive timestep and limiting', M + ':updateMorphology'), ('time left', C + ':main')])

prop('C12', 'The outlet opens and closes only for a cause, and a cause is acted on',
     'An open outlet becomes closed exactly when its channel, its end or the lagoon leading to it is narrower than the minimum '
     'width, and a closed one opens exactly when an erosion or spill breach can reach the lagoon, at the transect prescribed; the '
     'recorded flag follows at once. A closed lagoon with steady inflow and no way to seep away is breached within the time needed '
     'to fill it, and afterwards drains.',
     ['histories', 'inputs'],
     'All histories of opening and closing from all starting states, with connected and disconnected relic channels and with '
     'lagoons split by closure, to either side.',
     NO_RUN % 'openings and closures',
     [M, R, C], [('breach decision and creation', M + ':updateMorphology'), ('closure decision', R + ':assembleChannel'),
                 ('flag handed over between steps', C + ':main')])

prop('C13', 'Existing results are never overwritten without consent',
     'An existing result file is replaced only when overwriting was requested or the user answers yes to the question that names '
     'the file; any other answer, end of input or an interrupt leaves the existing file byte for byte as it was and ends the run '
     'with an error. This holds for each of the two files separately and for the command line as for the library call.',
     ['schedules', 'inputs', 'fault_sequences'],
     'All combinations of existing files, overwrite option, answers, missing or interrupted input, and entry point.',
     'No test creates a result file or answers a prompt.',
     [O, C, 'hapuamod/__main__.py'], [('question and removal', O + ':newOutFile'), ('question and removal', O + ':newTsOutFile'),
                                      ('overwrite option', 'hapuamod/__main__.py')])

prop('C14', 'Observing a run does not change it',
     'Writing records more or less often, drawing live plots, printing debug messages or progress and having another process read '
     'the result files does not change the simulated history: records of the same time are bit-identical. This holds for every '
     'combination of observation settings.',
     ['configurations', 'schedules', 'histories'],
     'All combinations of output, plot and log intervals and log levels, readers at any instant, all histories.',
     NO_RUN % 'observation settings',
     [C, O, 'hapuamod/visualise.py'], [('conditional bedload storage, output and plotting inside the loop', C + ':main'),
                                       ('plot updates', 'hapuamod/visualise.py:updateModelView')])

prop('C15', 'Synthetic forcing is reproducible, isolated and complete',
     'Synthetic river flow and tide cover the whole simulated period without gaps, are finite and positive (flow) or within the '
     'tidal range about the mean (tide), and with a seed are the same in every run, whatever other random numbers are drawn. Without a '
     'seed different runs get different flow; extending the simulated period leaves the part already generated unchanged; drawing '
     'them leaves the global random state of the process alone.',
     ['inputs', 'configurations', 'schedules'],
     'All parameter sets (event spacing from minutes to years, rising limbs longer than gaps, first and second order), seeds, periods '
     'and states of the global generators.',
     'No test generates synthetic forcing or runs the model with it.',
     [S, L], [('event generator', S + ':shotNoise'), ('tide', S + ':harmonicTide'), ('use of the configured parameters', L + ':loadModel')])

prop('C16', 'Unusable input is refused before any result is touched',
     'A configuration that is missing, damaged, incomplete or out of range, forcing files that are missing, torn, unordered, have '
     'gaps or do not cover the run, and a damaged or mismatching starting file make the run fail with an error before any existing '
     'result file is removed or changed and before new ones are created. The error is raised at loading, never in the middle of the '
     'simulation.',
     ['inputs', 'fault_sequences'],
     'Every input file of every scenario, missing, unreadable, torn at any byte, with any single value removed, swapped or out of range.',
     'No test loads a configuration.',
     [L, 'hapuamod/configspec.cnf', C], [('validation of configuration, series and starting file', L + ':loadModel'),
                                         ('files are created after loading', C + ':main')])

prop('C17', 'The model is driven by the forcing it was given, at the right time',
     'In every record the sea level, river flow, offshore wave height and wave direction are the linear interpolation of the supplied '
     'series at the time they apply to: water forcing at the end of the step, waves at its start. Directions are relative to the '
     'seaward normal of the coast, positive from the right, on a coast of any orientation.',
     ['inputs', 'histories', 'configurations'],
     'All series (regular and irregular, finer and coarser than the step), start dates, coast orientations, adaptive step sequences.',
     NO_RUN % 'forcing series',
     [C, L], [('interpolation', C + ':interpolate_at'), ('reading, direction conversion and trimming', L + ':loadModel')])

prop('C18', 'Left and right are interchangeable',
     'Reflecting a coast about the river axis together with the wave directions reflects the entire simulated history: the same '
     'levels, widths, rates, openings and closures at mirrored places and opposite signs of alongshore directed quantities. This '
     'includes every elongation, truncation, closure and breach on either side, and holds up to the choice of side where nothing '
     'distinguishes them (outlet end exactly on a transect line, no outlet end at all, or several equally low places).',
     ['histories', 'inputs'],
     'All starting states with an outlet, lagoon or relic channel on either side and all weather, for the entire history.',
     NO_RUN % 'mirrored histories',
     [M, R, K], [('left/right branches of elongation, truncation, breach and supply', M + ':updateMorphology'),
                 ('left/right branches of the channel assembly', R + ':assembleChannel'), ('longshore transport', K + ':longShoreTransport')])

prop('C19', 'Only elapsed time and relative position matter',
     'Moving start time, end time, requested start record and all forcing series by the same number of days changes nothing but the '
     'recorded times, across month ends, leap days, year ends and centuries. Moving or rotating the mapped coast together with the '
     'wave bearings changes nothing but the stored origin and orientation, up to rounding.',
     ['inputs', 'histories', 'configurations'],
     'All calendar positions, all rotations and offsets of the mapped coast, all histories.',
     'No test reads dates or maps.',
     [L, C, O], [('date parsing', L + ':loadModel'), ('coordinate system', L + ':loadModel'), ('time stamps', O + ':writeCurrent')])

prop('C20', 'Recorded transport rates follow from the recorded state',
     'In every record the bedload rate in each reach, the longshore rate on each shore segment and the cross-shore rate and its '
     'overwash share at each transect are those that the recorded water state, wave forcing, sea level, crest and barrier width '
     'imply by the documented formulas. In particular longshore transport runs with the waves and vanishes where they are directed '
     'offshore, bedload runs with the flow and vanishes below the threshold of motion, and only waves reaching the crest overtop it.',
     ['histories', 'inputs'],
     'Every step of every history: open, closed, reversed tidal flow, storm waves from any direction.',
     NO_RUN % 'transport histories',
     [K, R, C], [('longshore transport, runup, overtopping', K), ('bedload', R + ':calcBedload'), ('mapping of reaches to transects', R + ':storeBedload')])

prop('C21', 'A run starts from the coast its maps or settings describe',
     'The first record of a new run holds the coast that was mapped: axis fitted through the shoreline with the origin in line with '
     'the river and the sea on the side away from it, transects at the multiples of the spacing that the mapped shoreline covers, one '
     'of them at the river, shoreline, seaward cliff edge and seaward lagoon edge where the lines cross each transect, outlet banks '
     'half the outlet width to either side of the outlet line wherever that fits in the barrier, ending half a spacing past its last '
     'transect on the side it runs to, with beds falling evenly from the lagoon to the outlet bed level. Which way round a line was '
     'digitised, and redundant vertices on the lagoon, cliff and outlet lines, make no difference. Without maps it holds the straight coast '
     'that lengths and widths describe, and the river bed rises upstream from the lagoon bed at the river slope.',
     ['inputs', 'configurations'],
     'All mapped coasts of any place, orientation and digitising, all transect spacings, all straight coasts.',
     'No test reads a map or starts the model.',
     [L, 'hapuamod/geom.py', O], [('coordinate system, transects, cutting the lines', L + ':loadModel'),
                                  ('coordinate conversion and intersection', 'hapuamod/geom.py')])

prop('C22', 'Movies and live plots show the recorded history',
     'A movie made from a result file, as map, transect or long section, holds one frame for each selected record, in order, labelled with '
     'the time of that record and showing its shoreline, cliff, lagoon edge, channel banks, outlet mouth, beds and levels, whether the outlet is open '
     'or closed at that record or at the first one, and whatever the frames before showed. A mirrored coast gives the mirrored map. The plots of a '
     'running model show the state of the step they are drawn at. Making a movie never changes the result file, also of a run that is still going on or '
     'was killed, and a movie that can not be written ends with an error.',
     ['histories', 'fault_sequences', 'crash_points', 'schedules'],
     'All result files that a run leaves at its end, while it goes on or when it is killed, all ranges and samplings of records, all transects and areas, '
     'all frames at which the writer fails, and all plot intervals.',
     'No test draws a figure; figures are updated in place, so what a frame shows can depend on all frames before.',
     ['hapuamod/visualise.py', 'hapuamod/animate.py', C, O],
     [('map, long section and transect figures', 'hapuamod/visualise.py:updateModelView'), ('movies', 'hapuamod/animate.py:main'),
      ('reading a record', O + ':readTimestep'), ('live plots', C + ':main')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')
