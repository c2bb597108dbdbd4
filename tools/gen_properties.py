"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=list(observe), hook_needed=hook)))

prop('C01', 'Blocks run once per step, in causal order, exactly when an input is refreshed',
 'In every simulation step each block runs at most once, after every block whose same-step output it reads, and it runs exactly when it has no connected inputs or at least one of its inputs was produced in that step; blocks whose inputs are not refreshed keep their state and outputs. '
 'An input declared as delayed (":-1") always shows the consumer the value the producer had at the end of the previous step, never the current one. '
 'Neither the order in which blocks or inputs are written in the parameter files, nor the order in which independent blocks of one trigger group are executed, changes any result.',
 ['configurations', 'schedules', 'histories'],
 'all acyclic block graphs with optional feedback through delayed inputs (single, list, optional and unconnected inputs, several delayed feedbacks), all per-block output schedules (fast, slow, irregular, stalled producers), all orders of the YAML entries, all execution orders inside a trigger group',
 'The tests run a handful of fixed graphs in one YAML order with producers that refresh every step; the guarantee quantifies over graphs, refresh schedules and orders.',
 ['specula/simul.py', 'specula/loop_control.py', 'specula/base_processing_obj.py', 'specula/connections.py'],
 [('trigger order by leaf peeling', 'specula/simul.py:build_trigger_order'), ('check/trigger/post phases', 'specula/loop_control.py:iter'), ('input refresh test', 'specula/base_processing_obj.py:checkInputTimes')],
 [('generation_time', 'step at which a data object was last produced', 'specula/base_data_obj.py')],
 ['values and generation times seen by user-defined blocks during Simul.run()'])

prop('C02', 'The simulated time axis is exact and independent of the wall clock',
 'A simulation of a given duration and time step executes exactly the steps t0, t0+dt, t0+2dt, ... that are earlier than the end time, each once and in order, with every block seeing the exact integer-nanosecond time of the step for any duration and step expressible in nanoseconds. '
 'The behaviour of the wall clock (slow, stalled, frozen, jumping backwards or forwards), speed reporting and interactive stepping never change the number of steps, the times seen, or the results, and never abort the run. '
 'A start time different from zero only shifts the time axis.',
 ['inputs', 'schedules', 'fault_sequences', 'configurations'],
 'all (total time, time step, start time) triples at nanosecond granularity including non-multiples, all sequences of wall-clock readings, all user answers at the stepping prompt',
 'Tests use a few round durations on the real clock; rounding of seconds to nanoseconds, the end-of-run condition and clock anomalies need other values and a controlled clock.',
 ['specula/loop_control.py', 'specula/base_time_obj.py', 'specula/simul.py'],
 [('loop over t in integer ns', 'specula/loop_control.py:run'), ('seconds to ns conversion', 'specula/base_time_obj.py:seconds_to_t'), ('iteration count', 'specula/loop_control.py:niters'), ('speed report', 'specula/loop_control.py:iter')],
 [('t', 'current simulated time in ns', 'specula/loop_control.py')],
 ['step times seen by user-defined blocks', 'run() returning normally'])

prop('C03', 'Distributing a simulation over MPI ranks does not change its results',
 'Running the same parameter files with blocks assigned to any number of MPI ranks produces, at every block and step, the same values and refresh pattern as the single-process run, including delayed feedback, list inputs, slow producers and outputs that are not yet set. '
 'Whatever the message delays and the relative speed of the ranks, the run terminates on every rank (no deadlock) and every message sent is received by the input it was sent for.',
 ['configurations', 'schedules', 'fault_sequences'],
 'all block graphs, all assignments of blocks to ranks, all message delivery delays and rank interleavings that MPI allows (non-overtaking per channel), stalled ranks, all run durations',
 'No test runs with more than one rank (mpi4py is not even needed by the suite); the guarantee quantifies over assignments and interleavings.',
 ['specula/base_processing_obj.py', 'specula/connections.py', 'specula/loop_control.py', 'specula/simul.py', 'specula/base_data_obj.py'],
 [('per-connection message protocol', 'specula/base_processing_obj.py:send_outputs, send_remote_output'), ('receive side', 'specula/connections.py:_InputItem.receive_new_value'), ('start/last-step handling of delayed outputs', 'specula/loop_control.py:start, iter')],
 [('message channel (src, dst, tag)', 'one per remote connection', 'specula/simul.py:computeTag')],
 ['values seen by probe blocks on each rank', 'channel contents at the end of the run'])

prop('C04', 'Same parameters and seeds give bit-identical results',
 'Running the same parameter files twice with the same seeds gives bit-identical outputs, whatever ran before in the same process, whatever the process hash seed, the wall clock, the state of the global random generators, and whether phase-screen or kernel caches are cold or warm. '
 'In a multi-simulation batch each simulation gives the same results as when it is run alone, and two random blocks with different explicit seeds never share their random stream (blocks documented to use consecutive seeds per mode or layer excepted).',
 ['configurations', 'histories', 'schedules'],
 'all pipelines built from the seeded blocks (atmosphere, detector noise, random/vibration generators, random phase), all histories of earlier runs in the process, all ambient conditions (hash seed, clock, global RNG state, cache state)',
 'Tests compare against stored data once, in a fresh process; dependence on ambient state needs the same run repeated under different controlled ambient conditions.',
 ['specula/processing_objects/ccd.py', 'specula/processing_objects/atmo_evolution.py', 'specula/processing_objects/atmo_infinite_evolution.py', 'specula/processing_objects/random_generator.py', 'specula/processing_objects/vibration_generator.py', 'specula/processing_objects/atmo_random_phase.py', 'specula/lib/phasescreen_manager.py', 'specula/data_objects/infinite_phase_screen.py'],
 [('explicit seeds per block', 'constructors of the random blocks'), ('screen cache', 'specula/lib/phasescreen_manager.py')],
 [], ['digest of every output of every block at every step'])

prop('C05', 'Detectors and windowed averages account for every step exactly once',
 'Over any history of light arriving at a detector, the frames delivered partition the integration: each frame holds the flux of exactly the steps of its own exposure (scaled by band, quantum efficiency and gain), frames are emitted exactly at the exposure boundaries after the configured start time, and no step is lost, counted twice or leaked into another frame. '
 'Windowed integration delivers likewise the mean of exactly the samples of each window; a frame once delivered is stable until the next one, and a window\'s mean is shown at the step that closes it and zero is shown in between.',
 ['histories', 'configurations', 'schedules'],
 'all exposure lengths in loop steps, start times, input refresh schedules (missing steps, stalls), input sizes and binnings, detector settings without random noise',
 'Tests feed a few fixed sequences; the guarantee is over all refresh histories and exposure/start combinations.',
 ['specula/processing_objects/ccd.py', 'specula/processing_objects/windowed_integration.py'],
 [('integration and end-of-exposure test', 'specula/processing_objects/ccd.py:trigger_code'), ('window test', 'specula/processing_objects/windowed_integration.py:trigger_code')],
 [('integrated intensity', 'light of the current exposure', 'specula/processing_objects/ccd.py')],
 ['output pixels and their generation time at every step'])

prop('C06', 'Control filters apply gains and the declared delay for every history',
 'For every sequence of inputs, a control filter\'s output at its n-th activation equals its difference equation applied to exactly the inputs received so far, delayed by exactly the declared number of activations (linear interpolation for fractional delays); activations where nothing arrived do not advance it. '
 'Runtime controls (gain modulation, opening the loop, state reset, new gains) take effect from the activation at which they are issued, on the modes they address only, and never corrupt the other state.',
 ['histories', 'inputs', 'configurations'],
 'all input sequences, gains, forgetting factors, numerator/denominator orders, integer and fractional delays, mode counts, refresh schedules and interleavings of control actions',
 'Tests check a few step responses with fixed gains; the recursion with delays, resets and irregular activation is a property of whole histories.',
 ['specula/processing_objects/base_filter.py', 'specula/processing_objects/iir_filter.py', 'specula/processing_objects/integrator.py', 'specula/processing_objects/low_pass_filter.py', 'specula/processing_objects/ssr_filter.py', 'specula/processing_objects/dynamic_integrator.py', 'specula/data_objects/iir_filter_data.py'],
 [('delay line', 'specula/processing_objects/base_filter.py'), ('recursion', 'specula/processing_objects/iir_filter.py:trigger_code')],
 [('input/output history', 'samples kept for the recursion', 'specula/processing_objects/iir_filter.py'), ('delay buffer', 'outputs waiting to be released', 'specula/processing_objects/base_filter.py')],
 ['output command value and generation time after each activation'])

prop('C07', 'Turbulence moves by exactly wind times elapsed time, whatever the call schedule',
 'Each turbulent layer at time t is its frozen screen displaced by the time integral of its wind, so the layer seen at a given time does not depend on how the elapsed time was divided into steps, on skipped updates, or on other layers. '
 'Seeing changes rescale the phase amplitude from that step on without moving the screen, and cyclic screens wrap without jumps.',
 ['schedules', 'histories', 'inputs'],
 'all wind speed/direction and seeing histories, all update schedules (regular, irregular, with gaps), all layers counts, screen sizes and extra time offsets',
 'Tests run short regular schedules with constant wind; path independence quantifies over schedules and wind histories.',
 ['specula/processing_objects/atmo_evolution.py', 'specula/processing_objects/atmo_infinite_evolution.py', 'specula/data_objects/infinite_phase_screen.py'],
 [('position accumulation and interpolation', 'specula/processing_objects/atmo_evolution.py:trigger_code'), ('row/column insertion', 'specula/processing_objects/atmo_infinite_evolution.py')],
 [('last position', 'accumulated displacement per layer', 'specula/processing_objects/atmo_evolution.py')],
 ['layer phase arrays'])

prop('C08', 'Interactive inputs are applied once, in order, and bad ones never stop the run',
 'Values sent to a running simulation while it runs are delivered to the blocks that use them in the order they were sent, each exactly once, at the first step after they arrive; the last one wins when several arrive between two steps. '
 'A malformed, out of range or unknown value never aborts or stalls the simulation and leaves the affected block exactly as it was; the following valid value is honoured. '
 'A closed or silent input channel leaves the simulation running.',
 ['schedules', 'inputs', 'fault_sequences', 'histories'],
 'all interleavings of user messages with simulation steps, all malformed values, end of input and dead readers',
 'Tests push one or two messages synchronously; interleavings with the loop and malformed values in the middle of a history are not sampled.',
 ['specula/processing_objects/specula_input.py', 'specula/processing_objects/terminal_input.py', 'specula/processing_objects/dynamic_integrator.py', 'specula/processing_objects/dynamic_iir_filter.py', 'specula/processing_objects/dynamic_dark_calibrator.py', 'specula/processing_objects/dynamic_pyr_pupdata_calibrator.py'],
 [('queue polled at every step', 'specula/processing_objects/specula_input.py'), ('protected command handling', 'specula/processing_objects/dynamic_integrator.py')],
 [], ['outputs of the input block and of the commanded block at each step'])

prop('C09', 'An interactively acquired dark is the mean of exactly the frames requested',
 'When a dark acquisition is requested, the published dark frame becomes the mean of exactly the requested number of detector frames that arrive after the request, and only when the last of them has arrived; until then the previous dark stays in use. '
 'Requests, frame-count changes, saves and loads issued at any moment, including during an acquisition, have the effect of a sequential execution of those commands, and a dark that is saved and loaded again is the same dark.',
 ['histories', 'schedules', 'fault_sequences'],
 'all interleavings of trigger, frame-count, save and load commands with detector frames; malformed commands and storage errors in between',
 'The tests perform one clean acquisition; retriggering, changing the count mid-acquisition and load/save interleavings are histories they do not reach.',
 ['specula/processing_objects/dynamic_dark_calibrator.py'],
 [('acquisition state machine', 'specula/processing_objects/dynamic_dark_calibrator.py')],
 [('integrated pixels / counter', 'running acquisition', 'specula/processing_objects/dynamic_dark_calibrator.py')],
 ['published dark value and its generation time'])

prop('C10', 'Every display request is answered completely, in order, to its requester',
 'Each request a client makes to the display server of a running simulation is answered with one item for every requested object that exists, showing that object\'s state at one single step, followed by exactly one end-of-reply marker, and is sent only to the client that asked. '
 'Requests of several clients arriving at any time are all served, unknown or failing objects do not prevent the others from being served, and a client that disconnects or never reads does not stop the simulation or starve the other clients.',
 ['schedules', 'fault_sequences', 'histories'],
 'all interleavings of requests from several clients with simulation steps and server threads, all request contents (unknown names, lists, repeated names), client disconnects, plot failures',
 'The tests call the handler methods once, sequentially; interleavings between the web thread(s) and the simulation process are not explored.',
 ['specula/processing_objects/display_server.py', 'specula/lib/display_server_api.py'],
 [('request queue polled each step', 'specula/processing_objects/display_server.py:trigger'), ('reply queue and response thread', 'specula/lib/display_server_api.py')],
 [('request and reply queues', 'channel between simulation and web process', 'specula/lib/display_server_api.py')],
 ['messages emitted to each web client'])

prop('C11', 'Observing a simulation never changes it',
 'Adding, removing or using observers (display server and its client requests, data stores, data printers, displays, speed report) at any time leaves every value computed by the simulation bit-identical to the unobserved run. '
 'A failure inside an observer (unserialisable or unplottable data, a full disk, a client that vanishes) leaves the observed objects intact and the simulation results unchanged.',
 ['schedules', 'fault_sequences', 'configurations'],
 'all pipelines, all observer combinations, all request timings, failures injected at every observer operation',
 'Tests exercise observers separately from the simulation and without failures.',
 ['specula/processing_objects/display_server.py', 'specula/lib/display_server_api.py', 'specula/processing_objects/data_store.py', 'specula/processing_objects/data_print.py', 'specula/loop_control.py'],
 [('temporary removal of module references while serialising', 'specula/processing_objects/display_server.py'), ('copies taken by the stores', 'specula/processing_objects/data_store.py')],
 [], ['all block outputs with and without observers'])

prop('C12', 'A data store records every refreshed sample exactly once, in order',
 'When a simulation ends normally, the stored files contain for each selected output exactly the values it took at the steps where it was refreshed (after the configured start and keeping every N-th one when downsampling), each once, in time order and with its own time stamp, unaffected by later in-place changes of the data. '
 'Splitting the output into chunks changes the file layout only: the concatenation of the chunks equals the unsplit recording.',
 ['histories', 'configurations', 'schedules'],
 'all refresh schedules of the stored outputs, start times, downsampling factors, split sizes relative to the run length, file formats, data object types',
 'Tests store a few samples of one output in one configuration; boundaries between chunks, partial last chunks and downsampling phases are functions of the whole history.',
 ['specula/processing_objects/data_store.py', 'specula/processing_objects/data_buffer.py'],
 [('sample collection', 'specula/processing_objects/data_store.py:trigger_code'), ('final and periodic save', 'specula/processing_objects/data_store.py:finalize, save')],
 [('storage', 'time stamp to value per output', 'specula/processing_objects/data_store.py')],
 ['FITS/pickle files in the run directory'])

prop('C13', 'Stored runs are never lost, overwritten or corrupted silently',
 'Starting a run that makes its own directory (the default) never modifies or deletes the files of an earlier or concurrent run, however close in time they start and whatever the clock does. '
 'If anything prevents some data from being written completely (full disk, I/O error, unwritable directory, unrepresentable data), the user is told so, and every other output that can be written is written. '
 'Chunks already saved before a crash stay complete and readable.',
 ['crash_points', 'fault_sequences', 'schedules'],
 'all interleavings of several runs starting in the same storage directory, all clock readings, every write/mkdir/open failing or tearing, crash after any file operation',
 'Tests write to a healthy disk, one run at a time.',
 ['specula/processing_objects/data_store.py', 'specula/lib/process_utils.py'],
 [('time-named run directory creation', 'specula/processing_objects/data_store.py:create_TN_folder'), ('save with error handling', 'specula/processing_objects/data_store.py:save_fits, save_pickle')],
 [], ['directory tree and file contents after the run', 'exceptions and printed messages'])

prop('C14', 'Replaying a stored run reproduces the stored data and the recomputed outputs',
 'A replay generated from a stored run delivers at every step exactly the value that was stored for that step, with the same refresh pattern and for the whole duration of the run, in every storage format and precision; blocks recomputed from replayed inputs give the same outputs as in the original run. '
 'The parameter files stored with the run describe the run that was actually executed and are sufficient to replay it.',
 ['histories', 'configurations'],
 'all pipelines with a data store, all refresh schedules, run lengths, time steps, formats and precisions, replay of any subset of blocks',
 'Tests replay a few samples at short times in one format; time-stamp precision and irregular refresh show only on other histories.',
 ['specula/processing_objects/data_store.py', 'specula/processing_objects/data_source.py', 'specula/simul.py', 'specula/field_analyser.py'],
 [('replay parameter generation', 'specula/simul.py:build_replay, build_targeted_replay'), ('time lookup', 'specula/processing_objects/data_source.py:trigger_code')],
 [], ['outputs of the replayed simulation at every step'])

prop('C15', 'Cached phase screens and kernels never alter results or corrupt runs',
 'A block that uses a disk cache (phase screens, convolution kernels) gets exactly the data it would have computed itself, whether the cache is empty, filled by an earlier run, being filled by a concurrent run, or was left half-written by a crash or a full disk. '
 'Two requests that differ in any parameter that changes the data never share a cache entry.',
 ['crash_points', 'fault_sequences', 'schedules', 'inputs'],
 'all pairs of request parameters, crash or write error at every file operation while a cache file is written, all interleavings of concurrent runs sharing the directory',
 'Tests run once with a clean temporary directory and never interrupt a cache write.',
 ['specula/lib/phasescreen_manager.py', 'specula/data_objects/convolution_kernel.py', 'specula/data_objects/gaussian_convolution_kernel.py'],
 [('parameter-named cache files', 'specula/lib/phasescreen_manager.py'), ('kernel file names by hash', 'specula/data_objects/convolution_kernel.py')],
 [], ['screens returned to the caller', 'files in the cache directory'])

prop('C16', 'Saved calibration objects are never clobbered and load back as saved',
 'Saving a data object to an existing file without permission to overwrite fails and leaves the existing file byte-for-byte intact; saving and restoring gives back an equal object. '
 'If a save is interrupted at any point by a crash, a full disk or an I/O error, a later restore either gives the complete old or new object or fails: it never returns a partially saved object as if it were complete, and the failed save is reported to the caller.',
 ['crash_points', 'fault_sequences', 'inputs'],
 'all savable data objects with representative contents, every file operation of the save failing, tearing or crashing, existing and missing targets, both overwrite modes',
 'Tests do a clean save and restore for each class.',
 ['specula/data_objects', 'specula/base_value.py', 'specula/calib_manager.py'],
 [('FITS save/restore of each class', 'specula/data_objects/*.py'), ('overwrite flag', 'specula/data_objects/*.py:save')],
 [], ['file bytes before/after', 'restored object contents', 'exceptions'])

prop('C17', 'Calibrations equal the average of exactly the measurements taken',
 'A push-pull calibration over any history yields an interaction matrix in which each mode\'s column is the average over its cycles of the measured response divided by the applied amplitude, independent of the order of modes, the number of cycles, and of measurements that arrive late or not at all for other sensors; slope-null calibrations yield the mean of exactly the slopes received. '
 'Existing calibration files are protected before the run starts unless overwriting was requested, and the result is stored complete when the run ends.',
 ['histories', 'configurations', 'schedules'],
 'all mode counts, amplitudes, cycle counts, first mode offsets, push-pull repetition patterns, interleavings of measurements from several sensors',
 'Tests calibrate a few modes with a fixed amplitude vector and regular refresh.',
 ['specula/processing_objects/im_calibrator.py', 'specula/processing_objects/multi_im_calibrator.py', 'specula/processing_objects/rec_calibrator.py', 'specula/processing_objects/multi_rec_calibrator.py', 'specula/processing_objects/sn_calibrator.py', 'specula/lib/modal_pushpull_signal.py'],
 [('accumulation per mode and count', 'specula/processing_objects/im_calibrator.py:trigger_code'), ('normalisation at the end', 'specula/processing_objects/im_calibrator.py:finalize')],
 [('accumulated response and counts', 'running averages', 'specula/processing_objects/im_calibrator.py')],
 ['interaction matrix output and saved file'])

prop('C18', 'Time-averaged products average exactly the samples of their window',
 'Long-exposure PSF and Strehl ratio, demodulated amplitudes and buffered data emitted by the simulation are computed from exactly the samples refreshed in their declared time window, each once, with the declared normalisation, for any run length, start time and refresh schedule. '
 'Publishing or storing one such product does not alter the following ones.',
 ['histories', 'schedules', 'configurations'],
 'all input histories, start times, buffer and demodulation lengths (including incomplete last windows), refresh schedules and stalls',
 'Tests check a single window with fixed data.',
 ['specula/processing_objects/psf.py', 'specula/processing_objects/demodulator.py', 'specula/processing_objects/data_buffer.py', 'specula/lib/demodulate_signal.py'],
 [('PSF integration after start time', 'specula/processing_objects/psf.py'), ('window bookkeeping', 'specula/processing_objects/demodulator.py, data_buffer.py')],
 [], ['outputs and generation times at every step'])

prop('C19', 'Multi-input control blocks use the latest value of every input, once each',
 'With several sensors and commands arriving at different or irregular rates, every block that combines them (reconstruction from several sensors with or without pseudo-open-loop commands, multi-rate reconstruction and complementary filtering, products, combinations, slices and element-wise operations) uses at every activation the most recent value of each input, never one of a wrong time or of another sensor, and a sensor that is late or stalled does not corrupt the contribution of the others. '
 'Outputs are refreshed exactly when the documented inputs are, for every order of arrival.',
 ['schedules', 'histories', 'fault_sequences'],
 'all refresh schedules of the inputs (different rates, jitter, stalls, unexpected or missing measurements, never arriving), sensor counts, vector sizes and block configurations, readers of the current and of the previous output',
 'Tests refresh the sensors in a couple of fixed patterns.',
 ['specula/processing_objects/modalrec_multirate.py', 'specula/processing_objects/multirate_complementary_filter.py', 'specula/processing_objects/modalrec.py', 'specula/processing_objects/modalrec_implicit_polc.py', 'specula/processing_objects/mvm.py', 'specula/processing_objects/linear_combination.py', 'specula/processing_objects/mirror_commands_combinator.py', 'specula/processing_objects/base_operation.py', 'specula/processing_objects/base_slicer.py', 'specula/processing_objects/base_inserter.py'],
 [('selection by refreshed sensors', 'specula/processing_objects/modalrec_multirate.py'), ('per-path state', 'specula/processing_objects/multirate_complementary_filter.py')],
 [], ['output vectors and generation times at each step'])

prop('C20', 'Optical and reconstruction kernels are numerically correct',
 'Wavefront sensing, propagation, coronagraphy, modal bases, reconstructors and filters\' design functions compute the documented formulas: propagation conserves energy inside the pupil, modal bases are orthonormal on the pupil, generalised inverses satisfy their defining equations.',
 ['inputs'],
 'all apertures, wavelengths, sampling and regularisation parameters',
 'Tests compare single configurations against stored or analytic values.',
 ['specula/lib', 'specula/processing_objects/sh.py', 'specula/processing_objects/modulated_pyramid.py', 'specula/data_objects/intmat.py', 'specula/lib/zernike_generator.py', 'specula/lib/mmse_reconstructor.py'],
 [('pure array functions', 'specula/lib/*.py')], [], ['return values'])

prop('C21', 'Parameter files combine deterministically and reject inconsistencies',
 'Combining a parameter file with any number of additional files and command-line overrides applies additions, overrides and removals in order, restricted to the addressed simulation index, removes the dangling inputs of removed objects, and rejects unknown objects, duplicate names and unexpected constructor parameters before the run starts.',
 ['inputs', 'configurations'],
 'all parameter dictionaries and sequences of additions, overrides and removals',
 'Tests check a handful of dictionaries.',
 ['specula/simul.py'],
 [('parameter combination', 'specula/simul.py:combine_params, apply_overrides, remove_inputs')], [], ['objects built and their parameters'])

prop('C22', 'Blocks without memory depend on the current values of their inputs alone',
 'Mirrors, propagation, wavefront sensors, coronagraphs, slope computers, modal analysis, image and field operators and detectors integrating for one step compute every output from the current values of their inputs alone: it makes no difference which frames came before (stalls, missing deliveries, frames with NaN or infinite values, dark or flux-less frames), which other blocks run in the same simulation, also of the same kind or sharing inputs, or what ran earlier in the process. '
 'Data delivered by another block are never modified by their readers, outputs do not change when no input was refreshed, and a sensor distributed in slices gives the same image as the undivided one.',
 ['histories', 'fault_sequences', 'schedules', 'configurations'],
 'all input histories including stalls and corrupted frames, all combinations of blocks sharing inputs and process-wide caches, repeated simulations in one process; the support of the pupil amplitude is constant during a run',
 'Tests run each block on one or two clean frames in isolation; stale buffers, shared arrays and poisoned accumulators appear only after other histories or beside other blocks.',
 ['specula/processing_objects/atmo_propagation.py', 'specula/processing_objects/sh.py', 'specula/processing_objects/distributed_sh.py', 'specula/processing_objects/modulated_pyramid.py', 'specula/processing_objects/ext_source_pyramid.py', 'specula/processing_objects/slopec.py', 'specula/processing_objects/dm.py', 'specula/processing_objects/abstract_coronagraph.py', 'specula/lib/interp2d.py', 'specula/processing_objects/electric_field_combinator.py'],
 [('buffers shared by sensors of one process', 'specula/processing_objects/sh.py:_zeros_common'), ('accumulators cleared at each frame', 'specula/processing_objects/modulated_pyramid.py:trigger_code, atmo_propagation.py:trigger_code'), ('refresh of cached source points', 'specula/processing_objects/ext_source_pyramid.py:cache_ttexp')],
 [('work arrays kept between frames', 'padded fields, accumulated intensities, interpolators', 'specula/processing_objects/*.py')],
 ['outputs and generation times after every step', 'data of the producers after every step'])

prop('C23', 'Generators deliver the values their parameters define for each simulated time',
 'Waveforms, schedules, time histories, vibrations, random values, phase-screen cubes and random phase screens deliver at every step of any simulation, whatever its length, step and start time, the value their parameters define for exactly that simulated time. '
 'Scheduled changes take effect at the first step at or after their time; time histories give one row per step and then hold the last one; vibrations cover the whole run; cubes are interpolated linearly in time and times outside them are reported; random phases change every declared number of activations. '
 'Random streams depend on their own seed alone and not on the other blocks or on what ran before.',
 ['inputs', 'configurations', 'schedules', 'histories'],
 'all lengths, steps and start times at nanosecond granularity, all generator parameters, all combinations of generators in one simulation and repeated simulations in one process',
 'Tests check a few round times at single generators; rounding of times that are not round, ends of sequences and banks, and late starts need other time axes.',
 ['specula/processing_objects/base_generator.py', 'specula/processing_objects/wave_generator.py', 'specula/processing_objects/schedule_generator.py', 'specula/processing_objects/time_history_generator.py', 'specula/processing_objects/vibration_generator.py', 'specula/processing_objects/random_generator.py', 'specula/processing_objects/phase_screen_cube.py', 'specula/processing_objects/atmo_random_phase.py'],
 [('current time in seconds', 'specula/base_processing_obj.py:prepare_trigger'), ('change times', 'specula/processing_objects/schedule_generator.py:trigger_code'), ('row of this step', 'specula/processing_objects/time_history_generator.py:trigger_code'), ('interpolation in time', 'specula/processing_objects/phase_screen_cube.py:prepare_trigger')],
 [('iteration counter', 'row of a time history delivered next', 'specula/processing_objects/base_generator.py'), ('position in the bank', 'random phase in use', 'specula/processing_objects/atmo_random_phase.py')],
 ['outputs and generation times of the generators after every step'])

prop('C24', 'Adaptive estimators update on schedule, from exactly the samples received',
 'Optimised modal gains, estimated optical gains and estimated registration parameters are published at exactly the steps their parameters define (the first activation at or after each multiple of the optimisation interval; whenever both demodulated signals are new; when the estimation interval has elapsed since the last estimate with enough samples) and stay unchanged in between. '
 'Each estimate is the declared function of exactly the samples delivered so far (or since the last estimate) and of the previous estimate, at the rate at which they were delivered. '
 'Optimised gains minimise the residual variance among the tested stable gains, never exceed the stability limit, and are the gains the filter uses from the next step on.',
 ['histories', 'schedules', 'configurations'],
 'all histories of delta commands, commands, demodulated signals and slopes, all refresh schedules including late, missing and stalled samples, all intervals including those that are not multiples of the step',
 'Tests run one loop with one interval that is a multiple of the step and inputs refreshed at every step.',
 ['specula/processing_objects/gain_optimizer.py', 'specula/processing_objects/optical_gain_estimator.py', 'specula/processing_objects/base_sprint_estimator.py', 'specula/data_objects/iir_filter_data.py', 'specula/processing_objects/iir_filter.py'],
 [('optimisation schedule', 'specula/processing_objects/gain_optimizer.py:trigger_code'), ('both signals new', 'specula/processing_objects/optical_gain_estimator.py:trigger_code'), ('samples of the window', 'specula/processing_objects/base_sprint_estimator.py:_demodulate_slopes')],
 [('histories', 'samples used by the next estimate', 'specula/processing_objects/gain_optimizer.py, base_sprint_estimator.py')],
 ['estimates and generation times after every step', 'gains and outputs of the filter'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
