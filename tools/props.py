"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step.

  python3 tools/props.py
"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'

P = []


def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=(), note='', level='exploration',
         technique='deterministic simulation: seeded search over scenarios and histories'):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier={'over': over, 'text': quant}, why_tests_cant=why,
        anchors={'files': files,
                 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                 'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                 'observe_at': list(observe), 'hook_needed': None},
        level=level, note=note, technique=technique))


prop('C01', 'A restarted run continues exactly as the uninterrupted run',
     'Whatever the configuration, wherever a run is interrupted or killed, and however often, resuming from any restart '
     'file it left behind continues through exactly the states of a run that was never interrupted. '
     'The resumed run takes the same time steps, ends at the same time and writes the same output records for the same times, '
     'when the random numbers drawn are the same.',
     ['crash_points', 'histories', 'configurations'],
     'all model configurations, all time steps at which a run stops or is killed, chains of several restarts, any other working directory',
     'Existing tests never write or read a restart file; equality has to hold for every combination of processes (each with '
     'hidden state of its own) and every interruption point.',
     ['aeolis/model.py'],
     [('restart file written when the interval has elapsed', 'AeoLiSRunner.dump_restartfile'),
      ('state restored when a run is started from a restart file', 'AeoLiSRunner.load_restartfile'),
      ('run loop', 'AeoLiSRunner.run')],
     [('time, spatial grids, parameters, time step', 'everything the next step depends on', 'AeoLiS.t, .s, .p, .l, .dt')],
     ['restart files', 'model state after every step', 'output file'],
     'A reference run and an interrupted/killed/restarted run of the same scenario are compared bit for bit at every step; crash '
     'points are time steps, write calls and process kills.',
     technique='deterministic simulation with crash/restart injection, bitwise refinement against the uninterrupted run')

prop('C02', 'Restart files are complete or refused, whatever fails while writing',
     'Whatever disk error or kill hits the writing of a restart file, the restart files written before stay intact and loadable, '
     'and a disk error is reported to the user rather than passed over. '
     'A restart file that loads yields exactly the model state at the time it stands for; a missing, truncated or otherwise '
     'damaged file is refused with an error that leaves the model as it was.',
     ['fault_sequences', 'crash_points'],
     'all positions of errors (full disk, I/O error, short write), kills and truncations during the writing of any restart file of a run',
     'Existing tests neither write restart files nor inject any I/O error.',
     ['aeolis/model.py'],
     [('writing a restart file', 'AeoLiSRunner.dump_restartfile'), ('reading it back', 'AeoLiSRunner.load_restartfile')],
     [('restart file', 'pickled time, parameters, grids, counters', '<config>.r<time>')],
     ['files in the model directory', 'exceptions', 'state after loading'],
     'Faults are injected at every write/open/close/rename of the restart file, and every prefix of it is offered for loading.',
     level='fault_enumeration',
     technique='deterministic simulation with disk-fault and crash injection')

prop('C03', 'Output records: right times, right values, once each',
     'The output file of a run holds one record for the start and one for each first step at which the output interval has elapsed since the '
     'last record, with strictly increasing times, adjoining time bounds, and no record missing or doubled. '
     'Each record holds, in single precision, exactly the state the model has at its time for every requested variable, and the coordinates, '
     'layers and fractions in the file are those of the model.',
     ['configurations', 'histories'],
     'all grids, fractions, layers, output intervals, time step sizes (also adaptive), requested variables, time accelerations and run lengths',
     'Existing regression tests compare a few final files of fixed cases to reference files; record times and values under other intervals, '
     'adaptive steps or variables are not sampled.',
     ['aeolis/model.py', 'aeolis/netcdf.py'],
     [('when to write', 'AeoLiSRunner.write_output / output_write'), ('creating the file', 'netcdf.initialize'), ('appending a record', 'netcdf.append'),
      ('time bounds', 'netcdf.set_bounds')],
     [('output file', 'one record per output time', '<config>.nc')],
     ['output file compared to snapshots taken at every step'],
     'Snapshots of the running model at every step are the reference; every value of every record is compared.')

prop('C04', 'Output statistics cover exactly the steps since the previous record',
     'The average, sum, minimum, maximum and variance the model reports of a variable, in output records or on request, are those over exactly the '
     'steps completed since the previous record or the previous clearing request, each step counting once. '
     'Requests that do not clear leave them untouched.',
     ['histories', 'configurations'],
     'all variables, statistics, output intervals, sequences of steps and reading requests',
     'Existing tests request no statistics at all.',
     ['aeolis/model.py'],
     [('accumulating statistics', 'AeoLiSRunner.output_update'), ('resetting', 'AeoLiSRunner.output_clear'),
      ('reading', 'AeoLiSRunner.get_var'), ('writing', 'netcdf.append')],
     [('accumulators', 'sum, min, max, sum of squares and count since last clearing', 'AeoLiSRunner.o')],
     ['output file', 'BMI reads'],
     'An independent accumulator over per-step snapshots predicts every statistic.')

prop('C05', 'The output file survives crashes and disk errors at any moment',
     'At every moment of a run the output file on disk, once it exists, can be read by another program and holds every record completed so far with the right values. '
     'A kill or a disk error at any point loses at most the record being written, a kill never leaves a record without its values, and a disk error is reported rather than passed over.',
     ['crash_points', 'fault_sequences'],
     'all points at which the process is killed or a file operation fails while output is created, written or closed',
     'No existing test interrupts a run or injects an I/O error.',
     ['aeolis/netcdf.py', 'aeolis/model.py'],
     [('open-append-close per record', 'netcdf.append'), ('creation', 'netcdf.initialize')],
     [('output file', 'complete records only', '<config>.nc')],
     ['output file after a kill or error', 'exceptions'],
     'Kill and error points are placed at the seams around every netCDF and file operation of a record.',
     level='fault_enumeration',
     technique='deterministic simulation with disk-fault and crash injection')

prop('C06', 'A run depends on nothing but its inputs',
     'For given input files and random seed, a run yields bitwise the same states, time steps and output whatever the wall clock does '
     '(including jumps back and forth), from whatever directory and by whatever path it is started, whatever files earlier runs left, whatever models ran before in the '
     'process, and whatever the hash seed of the interpreter.',
     ['schedules', 'configurations', 'histories'],
     'all configurations and all environments of the process: clock readings, working directory, relative or absolute paths, leftover output, earlier models, hash seeds',
     'Tests run each case once, in one environment.',
     ['aeolis/model.py', 'aeolis/inout.py', 'aeolis/netcdf.py', 'aeolis/constants.py'],
     [('wall clock only for progress messages', 'AeoLiSRunner.print_progress'), ('working directory of the configuration', 'AeoLiSRunner.run'),
      ('defaults copied per model', 'inout.read_configfile')],
     [], ['states of two runs in different simulated environments'],
     'The same scenario is run in a plain and in a perturbed environment behind the seams.',
     technique='deterministic simulation with clock faults and environment perturbation, bitwise comparison')

prop('C07', 'Models in one process do not influence each other',
     'Several models in one process evolve exactly as each would alone, however their initialisation, steps, reads and writes are interleaved, '
     'even if one is preempted in the middle of a step by another, or another one fails.',
     ['schedules', 'histories'],
     'all interleavings of the operations of several models of any configuration, including preemption inside a time step',
     'Tests run one model at a time.',
     ['aeolis/model.py', 'aeolis/constants.py', 'aeolis/inout.py'],
     [('all state held by the instance', 'AeoLiS.__init__'), ('defaults copied per model', 'inout.read_configfile')],
     [], ['states of interleaved models compared to solo runs'],
     'A seeded scheduler hands a baton between threads at line granularity inside steps.',
     technique='deterministic simulation of thread schedules (seeded preemption), bitwise comparison with solo runs')

prop('C08', 'The model clock advances by the time step, never stalls, never overshoots',
     'Each step advances the model time by exactly the step size times the acceleration factor, where the step size is positive and the smallest of the one requested (or else configured), '
     'the one allowed by the stability criterion of the explicit scheme, and the one allowed by the limit on bed level change. '
     'Fast-forwarding advances the clock by exactly the requested duration and changes nothing else but the wind. '
     'A run ends with the first step that passes its stop time, within a bounded number of steps.',
     ['histories', 'configurations'],
     'all sequences of steps of given or default size and fast-forwards, all forcing series (calm, gusts), schemes, limits, start times and acceleration factors',
     'Tests only run fixed cases to the end.',
     ['aeolis/model.py'],
     [('step size', 'AeoLiS.set_timestep'), ('clock', 'AeoLiS.update'), ('run loop', 'AeoLiSRunner.run')],
     [('time and step size', 'model clock', 'AeoLiS.t, AeoLiS.dt')],
     ['time before and after every step'],
     'An independent prediction of the admissible step size is compared at every step.')

prop('C09', 'User callbacks are called once per step and do what they would do by hand',
     'A callback is called exactly once at the start of every step, with the model at the state the previous step left; whatever it changes takes effect as if it were changed '
     'by hand between two steps. '
     'If it raises, the error reaches the caller, the working directory is restored, and the model can be run again; a callback that cannot be found is refused.',
     ['programs', 'fault_sequences', 'histories'],
     'all callbacks (reading, changing grids or parameters, raising at any step), given as function or by name in the configuration',
     'The existing tests only check how a callback is parsed.',
     ['aeolis/model.py'],
     [('resolving a callback', 'AeoLiSRunner.parse_callback'), ('calling it', 'AeoLiSRunner.run')],
     [], ['calls recorded by the callback', 'state compared with a manually driven model'],
     'Manually stepped models with the same interventions are the reference.')

prop('C10', 'Exchange through the model interface is faithful',
     'Names, indices, ranks, shapes and values the model interface reports agree with each other and with the model state. '
     'A value written by name or index reads back as written and takes effect from the next step; reading, or writing back an unchanged value, alters nothing; an unknown '
     'name is neither found nor created.',
     ['histories', 'programs'],
     'all sequences of steps, reads and writes of all variables and parameters',
     'Existing tests touch a handful of calls on an initial model.',
     ['aeolis/model.py'],
     [('reading', 'AeoLiS.get_var'), ('writing', 'AeoLiS.set_var, set_var_index'), ('inquiry', 'get_var_count, get_var_name, get_var_rank, get_var_shape')],
     [], ['BMI calls'],
     'A shadow model that only receives the effective writes predicts every read and state.')


NA = []

exec(open(os.path.join(ROOT, 'tools', 'props_physics.py')).read())


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fp:
        for p in P:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
            fp.write(json.dumps(q) + '\n')
    checks = []
    for p in P:
        if p['id'] in dict(NA):
            continue
        checks.append({'property': p['id'],
                       'quick_cmd': '%s sim/check.py %s' % (PY, p['id']),
                       'thorough_cmd': '%s sim/check.py %s --thorough' % (PY, p['id']),
                       'evidence_file': 'evidence/%s.json' % p['id'],
                       'technique': p['technique'], 'level': p['level'],
                       'level_note': p['note']})
    man = {'version': 1,
           'setup_cmd': '%s sim/check.py --selfcheck' % PY,
           'checks': checks,
           'not_applicable': [{'property': i, 'reason': r} for i, r in NA],
           'notes': 'No hooks in /repo: every seam (clock, files, netCDF, random numbers, threads) is installed from outside by sim/seams.py. '
                    'Quick checks interpret the numba kernels, thorough checks compile them.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fp:
        json.dump(man, fp, indent=1)
        fp.write('\n')
    from design import write
    write(ROOT, P)


main()
