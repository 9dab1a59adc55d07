"""Source of properties.jsonl and MANIFEST.json (run mk.py)."""

CW = "shepherd_core/shepherd_core/writer.py"
CR = "shepherd_core/shepherd_core/reader.py"
DR = "shepherd_data/shepherd_data/reader.py"

P = []
NA = []


def prop(pid, title, statement, over, text, why, files, mech, tech, note, observe=None):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note, observe=observe))


def na(pid, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, reason=reason))


AI = "Sound over every path of the analysed functions under the engine's abstraction (path conditions, symbolic terms; loops for any number of rounds); trusts the modelled meaning of h5py/numpy/pathlib calls and does not model I/O errors or concurrent processes."

prop("W01", "Existing recordings survive unless overwriting or modifying was requested",
     "Creating a recording never truncates or replaces a file that already exists unless the caller explicitly asked for overwriting; without that request a new, unused file name in its place is chosen. An existing file is opened for modification only when the caller asked for modification, and such a request never truncates it. Storing data or metadata and closing never touch any other file.",
     ["inputs", "configurations", "histories"], "every target path, every combination of options and every pre-existing directory content",
     "Tests sample a handful of option combinations on an empty temp directory; the guarantee is over every path state and every option combination.",
     [CW], [("writer constructor", f"{CW}: Writer.__init__"), ("unused-name search", f"{CW}: unique_path")],
     "path-sensitive abstract interpretation; every file-opening call needs a dominating proof", AI)

prop("R05", "Exports and conversions never overwrite existing files",
     "Exporting a recording to CSV, log, metadata, waveform, plot or multi-plot file, extracting the serial log, cutting or down-sampling into a new file, and converting foreign recordings create their output only when no file with exactly that output name exists; an existing file is left untouched.",
     ["inputs", "histories"], "every recording, output name and directory content, including repeated runs",
     "Tests check one repeat run for some exports; the guarantee is for every output name derived from any input.",
     [DR, CR, "shepherd_data/shepherd_data/ivonne.py", "shepherd_data/shepherd_data/cli.py"], [("exports", f"{DR}: save_csv, save_log, plot_to_file, multiplot_to_file, cut_and_downsample_to_file"), ("metadata and waveforms", f"{CR}: save_metadata, waveform_to_csv"), ("serial log", "shepherd_data/shepherd_data/cli.py: extract_uart"), ("conversions", "shepherd_data/shepherd_data/ivonne.py: Reader")],
     "path-sensitive abstract interpretation; file-sink guard analysis", AI)

prop("W02", "Time, voltage and current of a recording always stay sample-aligned",
     "Appending samples, raw or in physical units, stores the same number of time, voltage and current values at the same position, never more than the shortest of the given inputs and always their leading part, each channel from its own input. Closing a recording trims all three channels to the same length, and only to a whole number of buffers. No other writer operation changes the length or content of a channel.",
     ["inputs", "histories"], "all input lengths (also unequal or empty), scalar or array timestamps, any sequence of appends",
     "Tests append equal-length arrays a few times; misalignment shows only for unequal lengths or particular histories.",
     [CW], [("append", f"{CW}: append_iv_data_raw, append_iv_data_si"), ("trim on close", f"{CW}: _align")],
     "relational abstract interpretation over symbolic lengths and ranges", AI)

prop("W03", "Metadata and calibration read back are what was stored",
     "The mode, data type, window size, configuration, host name and the per-channel calibration gain and offset that a recording was written with are exactly what opening it for reading reports. A cut or down-sampled copy carries the same mode, data type, window size, calibration, configuration and host name as its source.",
     ["inputs", "configurations"], "every value of every metadata field, every combination of options",
     "Tests read back default or single values (an empty configuration, for example), which cannot tell a lost value from a default.",
     [CW, CR, DR], [("stores", f"{CW}: Writer.__init__, store_config, store_hostname"), ("queries", f"{CR}: get_mode, get_datatype, get_window_samples, get_config, get_hostname, Reader.__init__"), ("copy", f"{DR}: cut_and_downsample_to_file")],
     "abstract interpretation; location, key, value and encoding agreement of writer and reader", AI)

prop("R02", "A recording is reported valid exactly when every mandatory criterion holds",
     "A file is reported valid only if it has the data group, a supported mode, a window size and a data type allowed for that mode, the time, voltage and current datasets each with gain and offset, and, for voltage-current curves, a window of at least one sample. A file that meets all of these is never reported invalid; sizes, alignment, compression, host name and logged errors only cause warnings.",
     ["inputs"], "every structure and attribute content a file may have",
     "Tests validate well-formed files; each missing-criterion case is a separate malformed file of which few exist.",
     [CR], [("validity check", f"{CR}: is_valid, mode_dtype_dict")],
     "path-sensitive abstract interpretation; both verdicts checked against the criteria", AI)


CAL = "shepherd_core/shepherd_core/data_models/base/calibration.py"
HWD = "shepherd_core/shepherd_core/calibration_hw_def.py"

prop("C01", "Calibration conversions are exact inverses and never negative unless allowed",
     "Converting raw values to physical units gives raw times gain plus offset, and converting physical to raw is its exact inverse, rounded to the nearest integer and never negative, for single numbers and arrays alike; suppressing negative physical values yields zero or more. The gain is strictly positive, conversions never change the caller's array, and a calibration derived from a probe function inverts that function.",
     ["inputs"], "every raw and physical value, scalar or array, and every gain and offset",
     "Tests convert a few values with default calibration, where clamping, rounding direction and aliasing are invisible.",
     [CAL], [("conversions", f"{CAL}: CalibrationPair.raw_to_si, si_to_raw, from_fn")],
     "abstract interpretation to symbolic terms; affine-inverse identity and clamp analysis per path", AI)
prop("C02", "Calibration written to the EEPROM byte string is restored unchanged",
     "The EEPROM byte string holds every gain and offset of harvester and emulator calibration as big-endian double values in one fixed order. Parsing it puts every value back exactly where it came from.",
     ["inputs"], "every calibration content",
     "Tests round-trip the default calibration, where swapped fields often hold identical values.",
     [CAL], [("pack / unpack", f"{CAL}: CalibrationCape.to_bytestr, from_bytestr")],
     "abstract interpretation; agreement of the packing and unpacking terms", AI)
prop("C03", "Kernel-exported calibration always fits the integers it is stored in",
     "The kernel export of a calibration only ever returns values that fit their field: gains within 0 to 2^32-1 and offsets within -2^31 to 2^31-1. Otherwise, and only otherwise, it refuses with an error; every value is given in the documented unit and bit shift.",
     ["inputs"], "every calibration content",
     "Tests export one or two calibrations; overflow needs unusual gains.",
     [CAL], [("export", f"{CAL}: CalibrationEmulator/CalibrationHarvester.export_for_sysfs")],
     "path-sensitive abstract interpretation; interval proof from branch facts for each exported value", AI)
prop("C04", "Hardware conversions are linear, mutually inverse and confined to code range",
     "The conversions between physical voltage or current and converter codes are linear and pairwise inverse. With limiting, codes are confined to the 18-bit ADC and 16-bit DAC range; without limiting, values are not clamped.",
     ["inputs"], "every value, limited or not",
     "Tests convert few in-range values.",
     [HWD], [("conversions", f"{HWD}: adc_*_to_*, dac_*_to_*")],
     "abstract interpretation to symbolic terms; linear-inverse identity and range of the limited variants", AI)

DM = "shepherd_core/shepherd_core/data_models"
XP = f"{DM}/experiment/experiment.py"
TC = f"{DM}/experiment/target_config.py"
TB = f"{DM}/testbed/testbed.py"

prop("M05", "Faulty or unimplemented configurations are refused",
     "Negative durations and delays, start times in the past, recording nothing, an empty tracing mask, unknown auxiliary voltage sources, actuation, non-hex programming files, public content without description, targets on an observer without cape, pins without address or not controllable by the user, and harvesting voltages outside their own limits are refused with an error wherever such a field exists. Nothing else about these features is refused, and an accepted instance is passed on unchanged.",
     ["inputs", "configurations"], "every combination of field values of every model",
     "Tests try one or two faulty values per model; each combination with the other fields is a separate input.",
     [f"{DM}/experiment/observer_features.py", f"{DM}/task/emulation.py", f"{DM}/task/harvest.py", f"{DM}/task/programming.py", f"{DM}/base/content.py", f"{DM}/testbed/observer.py", f"{DM}/testbed/gpio.py", TB, XP, f"{DM}/content/virtual_harvester.py"],
     [("model validators", "post_validation of PowerTracing, GpioTracing, GpioEvent, EmulationTask, HarvestTask, ProgrammingTask, ContentModel, Observer, GPIO, Testbed, Experiment, VirtualHarvesterConfig")],
     "path-sensitive abstract interpretation of the effective validators under the assumed faulty state", AI)
prop("M06", "Accepted experiments use every target, observer and final ID only once",
     "An experiment is only accepted if no target, no observer and no final ID (custom, or the one of the testbed) is used twice, every target exists, its energy environment is valid, every custom ID list covers its targets, and the firmware of each controller slot - the given one or else the default - is built for the controller of each target. Queries return the configuration and custom ID belonging to exactly the requested target.",
     ["inputs", "configurations"], "every experiment: any number of target configurations, targets, custom IDs and firmwares",
     "Tests contain a few faulty experiments; collisions across configurations and partial custom IDs are combinatorial.",
     [XP, TC], [("experiment validation", f"{XP}: post_validation, _validate_targets, _validate_observers, get_target_config"), ("target validation", f"{TC}: post_validation, get_custom_id")],
     "abstract interpretation with symbolic collections; uniqueness and compatibility facts on every accepting path", AI)
prop("M07", "Accepted testbeds are free of duplicates, lookups find the right observer",
     "A testbed in which two observers share ID, address, MAC, network port, cape or target is refused. Looking up a target returns an active observer with an active cape which holds that active target, on the side which is reported, or an error.",
     ["inputs", "configurations"], "every testbed: any number of observers with or without cape and targets",
     "Tests use the one shipped testbed, which has no duplicates and no decommissioned parts.",
     [TB, f"{DM}/testbed/observer.py"], [("testbed validation", f"{TB}: post_validation, get_observer"), ("target side", f"{DM}/testbed/observer.py: has_target, get_target, get_target_port")],
     "abstract interpretation with symbolic collections; duplicate-freeness facts on every accepting path", AI)

TK = f"{DM}/task"
prop("T01", "Derived tasks carry every setting of the experiment to the right observer",
     "The tasks derived from an experiment and a testbed contain, for every target of the experiment, the settings of exactly the configuration that this target belongs to: duration, start time, energy source and environment, tracing, actuation, ports, custom IDs and the firmware of each controller slot. Every task is addressed to the observer which holds the target, and firmware modification and programming of a slot use the same file.",
     ["inputs", "configurations"], "every experiment and testbed: any number of target configurations, targets and optional settings",
     "Tests derive tasks from a few default experiments, in which settings of several configurations or slots are equal and mix-ups are invisible.",
     [f"{TK}/testbed_tasks.py", f"{TK}/observer_tasks.py", f"{TK}/emulation.py", f"{TK}/firmware_mod.py", f"{TK}/programming.py"],
     [("task derivation", f"{TK}/testbed_tasks.py, observer_tasks.py, emulation.py, firmware_mod.py, programming.py: from_xp")],
     "abstract interpretation with all task constructors inlined; each task field must be the term of its source setting", AI)
prop("T02", "Task files yield exactly the requested tasks in their required order",
     "Extracting a stored task yields the model of the stored type with the stored content, any other type and disallowed sets are refused. The tasks of one observer are all present tasks, firmware modification before programming before emulation. Loading a set for one observer yields that observer's own tasks or an error.",
     ["inputs", "configurations"], "every task type, every subset of present tasks, every observer name",
     "Tests extract a few generated task files; subsets of tasks and unknown observers are combinatorial.",
     [f"{TK}/__init__.py", f"{TK}/observer_tasks.py", f"{TK}/testbed_tasks.py"],
     [("extraction and loading", f"{TK}/__init__.py: prepare_task, extract_tasks"), ("order", f"{TK}/observer_tasks.py: get_tasks")],
     "path-sensitive abstract interpretation; case analysis over all task models, order of symbolic list entries", AI)

prop("M01", "Configuration models are constant, complete and closed after creation",
     "Every configuration model is constant after its creation, rejects unknown fields as well as infinite and undefined numbers, and validates its own defaults. No library function alters a given model, or the lists it holds, in place.",
     ["inputs", "histories"], "every model class and every library function that receives a model",
     "Tests would have to compare every model before and after every call; the strictness of a model is a property of each of its subclasses and fields.",
     [f"{DM}/base/shepherd.py", DM], [("strictness", "effective model_config of every configuration model"), ("constancy", "every function and method of the core library that receives a model")],
     "effective-configuration enumeration over the class hierarchy; whole-program alias and effect analysis", AI)
prop("A01", "Library functions leave data handed in by the caller untouched",
     "No public function, method, conversion, decoder or validator of the core library modifies arrays, lists, dictionaries or models handed in by the caller. Documented output parameters are the only exception.",
     ["inputs", "histories"], "every public function with every argument it can receive, through every helper it calls",
     "Tests rarely compare arguments before and after a call, and aliasing only shows with some shapes and types of input.",
     ["shepherd_core/shepherd_core"], [("public functions", "all exported functions and public methods of the core library")],
     "whole-program interprocedural alias and effect analysis", AI)
FX = "shepherd_core/shepherd_core/testbed_client/fixtures.py"
prop("D01", "Looking up stored elements never changes them, own values win",
     "Looking up, completing or inheriting from a stored element never changes what is stored. Elements are found by ID or by name regardless of case, unknown ones raise an error, a model that is only named is completed with exactly that element, and a model's own values win over those it inherits. Circular inheritance is an error.",
     ["inputs", "histories"], "every stored element, every query and every chain of inheritance",
     "Tests query the shipped fixtures, whose values coincide and which hold no circles.",
     [FX, "shepherd_core/shepherd_core/testbed_client/client_abc_fix.py"],
     [("queries", f"{FX}: Fixture"), ("completion", "testbed_client/client_abc_fix.py: try_completing_model, query_item")],
     "whole-program alias and effect analysis; path-sensitive abstract interpretation of lookup, insertion and inheritance", AI)

VS = f"{DM}/content/virtual_source.py"
VH = f"{DM}/content/virtual_harvester.py"
VM = "shepherd_core/shepherd_core/vsource"

prop("H01", "Every setting of a virtual source reaches its register exactly and in range",
     "Each register value computed for converter or harvester is the setting of the same name converted to the unit of the register and rounded to the nearest integer, including each entry of the efficiency tables, and lies within 0 and 2^32-1 for every accepted configuration. Thresholds of the output are the settings, raised where the buck converter needs more. Timings equal the settings within what the recorder can do: at least one sample with its waiting cycles, in emulation at least one window, and no measurement longer than its interval.",
     ["inputs", "configurations"], "every accepted virtual source and harvester configuration (real-valued, arbitrarily combined settings), every input type",
     "Tests convert the shipped sources only; extreme or odd combinations of settings overflow registers silently.",
     [VS, VH], [("converter registers", f"{VS}: ConverterPRUConfig.from_vsrc"), ("harvester registers", f"{VH}: HarvesterPRUConfig.from_vhrv")],
     "path-sensitive abstract interpretation with intervals and linear (polyhedral) constraints; symbolic unit agreement", AI)

prop("H02", "Mode and algorithm codes mean the same to encoder and model",
     "For every combination of settings, the mode number given to converter and harvester decodes in the model to exactly what was asked for: storage, boost only with storage, buck, logging of the intermediate node, feedback only with storage, without boost and with curves as input, direction of the sweep and extrapolation. Every harvesting algorithm has its own number, and the model runs exactly this algorithm on curves and passes samples through. Algorithms and inputs that cannot be emulated or harvested are refused.",
     ["inputs", "configurations"], "every combination of settings, algorithms, input types and directions",
     "Tests run a few of the combinations; a swapped bit or number still yields plausible results.",
     [VS, VH, f"{VM}/virtual_converter_model.py", f"{VM}/virtual_harvester_model.py"],
     [("encoder", f"{VS}: calc_converter_mode; {VH}: calc_hrv_mode, calc_algorithm_num"), ("decoder", f"{VM}/virtual_converter_model.py and virtual_harvester_model.py: constructors, ivcurve_sample")],
     "path-sensitive abstract interpretation of encoder and decoder composed; exhaustive case analysis over all settings", AI)

prop("V01", "The virtual converter balances its power exactly and keeps its limits",
     "In every state the model takes from its source exactly what passes input drop, limits, threshold, input resistor and conversion efficiency, where the efficiency is the entry of the right table whose scale step (linear in voltage, logarithmic in current, clipped at both ends) holds the value. A source below the storage charges nothing without boost converter. The output takes target current times voltage through the inverse efficiency plus leakage, the storage changes by exactly the difference of both powers and stays within its limits, and negative current readings cancel with later ones.",
     ["histories", "inputs"], "every state, input and configuration of the virtual converter (real-valued)",
     "Tests run single traces through shipped sources; table edges, limits and signs matter only in states those never reach.",
     [f"{VM}/virtual_converter_model.py"],
     [("input", f"{VM}/virtual_converter_model.py: calc_inp_power, get_input_efficiency"), ("output", "calc_out_power, get_output_inv_efficiency"), ("storage", "update_cap_storage"), ("residue", "PruCalibration.conv_adc_raw_to_nA")],
     "path-sensitive abstract interpretation; every path compared with a reference by piecewise symbolic and linear-arithmetic equality", AI)

prop("V02", "The virtual output is switched only at its thresholds and shows what it does",
     "The output switches only when its interval of checks has passed: on once the storage has reached the enabling threshold (which never costs more than is stored), paid from the storage, off only below the disabling threshold. When on it gives the regulated voltage, or without buck converter or reserve what is left of the storage after the drop but never less than zero; when off it gives zero, and the value for the DAC always fits its 16 bit. Power-good follows its own thresholds with hysteresis at the checks, or immediately if asked for, never rises without output, and logging of pins is skipped exactly below its threshold.",
     ["histories", "configurations"], "every state and configuration of the virtual converter (real-valued)",
     "Tests run single traces; order of updates and equality at thresholds matter only in states those never reach.",
     [f"{VM}/virtual_converter_model.py"],
     [("switching", f"{VM}/virtual_converter_model.py: update_states_and_output"), ("start", "VirtualConverterModel.__init__"), ("DAC", "PruCalibration.conv_uV_to_dac_raw")],
     "path-sensitive abstract interpretation; every path compared with a reference by piecewise symbolic and linear-arithmetic equality", AI)

prop("V03", "Every harvesting algorithm tracks the recorded curve exactly as specified",
     "Constant voltage holds the recorded pair which is nearest to its setpoint when the curve crosses it within four steps, otherwise it keeps what it has or, if asked for, extrapolates along the last slope without falling below zero. Optimal tracking yields the best recorded pair inside the voltage window and renews it when it gets older than two curves; the open-circuit tracker uses only values measured while no current flows, holds them no longer, and its setpoint never exceeds the maximum; perturb-and-observe changes its setpoint once per interval and always keeps it inside its limits. Each sample is evaluated with the setpoint it was recorded for, exactly once.",
     ["histories", "inputs"], "every state, every sample and every configuration of the virtual harvester (real-valued)",
     "Tests run few traces and compare total energy roughly; ages, limits and turning points are reached by special histories only.",
     [f"{VM}/virtual_harvester_model.py"],
     [("algorithms", f"{VM}/virtual_harvester_model.py: ivcurve_2_cv, ivcurve_2_mppt_voc, ivcurve_2_mppt_po, ivcurve_2_mppt_opt"), ("start", "VirtualHarvesterModel.__init__")],
     "path-sensitive abstract interpretation; every path compared with a reference by piecewise symbolic and linear-arithmetic equality; inductive invariants by linear entailment", AI)

prop("V04", "Virtual targets never fail, never feed power back and draw what they model",
     "For every accepted set of parameters, every voltage from zero upwards and either state of the output, a virtual target returns a current of at least zero without failing, including the moment in which the output is off and its voltage is zero. Constant current and constant power targets draw exactly their active or sleep value, the resistive one follows Ohm's law, the diode follows its exponential characteristic through the given forward point; switched-off controlled targets draw nothing. Parameters for which the model is meaningless are refused.",
     ["inputs", "configurations"], "every accepted parameter, every voltage >= 0, both states of the output (real-valued)",
     "Tests run a handful of targets at a handful of voltages and ignore the drawn current.",
     [f"{VM}/target_model.py"],
     [("targets", f"{VM}/target_model.py: ResistiveTarget, DiodeTarget, ConstantCurrentTarget, ConstantPowerTarget")],
     "path-sensitive abstract interpretation of constructor and step composed; interval and linear-arithmetic entailment on every path", AI)

prop("V05", "Simulations process each sample once, in right units, and account all energy",
     "A simulation feeds every recorded sample exactly once, converted with the calibration of the input, through the model configured as asked, while the state of the model and the current drawn by the target live on from sample to sample and from buffer to buffer. The power stages run input, output, storage, states and the feedback reaches the harvester for the next sample only. What is written, if asked for, are the simulated samples with their original timestamps in the calibration of the output, and the returned energy is that of all simulated samples.",
     ["inputs", "histories"], "every recording, every configuration and every target",
     "Tests only look at a total energy for a few short recordings and accept wide bands.",
     [f"{VM}/virtual_source_simulation.py", f"{VM}/virtual_harvester_simulation.py", f"{VM}/virtual_source_model.py"],
     [("simulation", f"{VM}: simulate_source, simulate_harvester"), ("step", f"{VM}/virtual_source_model.py: VirtualSourceModel")],
     "path-sensitive abstract interpretation of the loops: order of stages, symbolic units, values carried from round to round", AI)

FT = "shepherd_core/shepherd_core/fw_tools"
prop("F01", "Embedded firmware comes back bit by bit and is what its hash and type promise",
     "Embedding a firmware file and extracting it again restores its content exactly, under the extension of its type, and the hash of both forms is that of the whole uncompressed content. Embedded content which is corrupted or differs from its hash is refused when the model is created; a comparison is positive only for equal hashes and works for embedded and linked firmware alike. Creating the model from a file derives type, controller and location from the file, refuses unsuitable files and never replaces what was given.",
     ["inputs"], "every file, every data type and every set of given parameters",
     "Tests embed one or two valid files; corrupted content, linked files and rare extensions never occur.",
     [f"{FT}/converter.py", f"{DM}/content/firmware.py", f"{DM}/task/firmware_mod.py"],
     [("encoding", f"{FT}/converter.py: file_to_base64, base64_to_file, file_to_hash, base64_to_hash, extract_firmware"), ("model", f"{DM}/content/firmware.py: Firmware"), ("task", f"{DM}/task/firmware_mod.py: FirmwareModTask.from_firmware")],
     "path-sensitive abstract interpretation; inverse pairs by term rewriting; decision table of types, hashes and controllers", AI)

prop("F02", "Patching a firmware changes the requested symbol and nothing else",
     "A patch writes the requested value at the address of the requested symbol, in the byte order of the file and in a width which every accepted value fits into, and reading uses the same address, width and order. The original file is only replaced on request; otherwise a new file is written, and the returned path is the one that was written. When the symbol does not exist or the patch fails, no file is changed.",
     ["inputs", "fault_sequences"], "every file, symbol and value",
     "Tests patch one symbol of few files, and only with one byte order.",
     [f"{FT}/patcher.py", f"{DM}/task/firmware_mod.py"],
     [("access", f"{FT}/patcher.py: find_symbol, read_symbol, modify_symbol_value"), ("target ID", f"{FT}/patcher.py: read_uid, modify_uid")],
     "path-sensitive abstract interpretation (address, width and byte order of each access, effects per path)", AI)

prop("F03", "Firmware is only taken for what its content shows, garbage is no error",
     "A file counts as HEX or ELF exactly if it can be parsed as such, and any other content is answered with no instead of an error. Firmware counts as suitable for the msp430 only if it starts at the beginning of program memory, holds a reset vector which points into the program and fits into memory; for the nRF52 only if it is not empty. Conversions for that test leave nothing behind and the stricter test always comes first.",
     ["inputs"], "every file content",
     "Tests know a handful of intact files.",
     [f"{FT}/validation.py"],
     [("detection", f"{FT}/validation.py: is_hex, is_elf, is_hex_msp430, is_hex_nrf52, is_elf_msp430, is_elf_nrf52, determine_type, determine_arch")],
     "path-sensitive abstract interpretation with named exceptions of the parsers; interval entailment on accepting paths", AI)

prop("R01", "Reading delivers every requested buffer once, in order and in the right unit",
     "Reading a recording delivers the requested complete buffers one after the other, by default all of them, with each sample exactly once and time, voltage and current cut alike. Physical values are converted with the calibration of their own channel, raw ones are exactly what is stored, and only the time is left out, only on request.",
     ["inputs", "configurations"], "every size of recording and buffer, every range, every combination of options",
     "Tests read a few buffers of one recording with default options and compare sizes.",
     [CR], [("generator", f"{CR}: read_buffers"), ("channels", f"{CR}: Reader.__init__")],
     "path-sensitive abstract interpretation; symbolic ranges of the generator loop", AI)

prop("R03", "Energy, statistics and rates of a recording are those of all of its samples",
     "The reported energy is the sum over every sample exactly once of physical voltage times current times sample interval, and mean, minimum, maximum and standard deviation are those of the whole dataset in its own calibration, however it is cut into chunks. Sample interval and rate follow from the duration and the number of steps between samples, runtime and number of buffers from the number of samples. A time jump between any two neighbouring buffers is noticed and equal steps are never refused; the voltage step is the configured or the smallest recorded one, in volt.",
     ["inputs"], "every recording, of any length relative to the size of chunks",
     "Chunks hold 40 seconds, the recordings of the tests are shorter, so combining chunks is never executed.",
     [CR], [("energy", f"{CR}: energy"), ("statistics", f"{CR}: _dset_statistics"), ("rates", f"{CR}: _refresh_file_stats, Reader.__init__"), ("time jumps", f"{CR}: _data_timediffs, check_timediffs"), ("voltage step", f"{CR}: get_voltage_step")],
     "abstract interpretation; chunk coverage and algebra of moments over symbolic chunks", AI)

prop("R06", "GPIO waveforms contain exactly the state changes of their own pin",
     "The waveform of a pin has its first recorded state and then exactly those samples in which the bit of this pin differs from the one before, each with its own timestamp. Pins are found by their described name, unknown pins and recordings without GPIO have no waveform and raise no error. The CSV export has every row in order, in seconds; a signal which cannot be decoded as UART is no error.",
     ["inputs"], "every GPIO trace, including empty ones, and every description of pins",
     "Only one recorded trace is decoded by the tests.",
     [CR], [("waveforms", f"{CR}: gpio_to_waveforms, get_gpio_pin_num, get_filter_for_redundant_states"), ("export", f"{CR}: waveform_to_csv, gpio_to_uart")],
     "path-sensitive abstract interpretation; symbolic bit selection and change filter", AI)


prop("R04", "Text exports have one line per entry with its own timestamp and values",
     "Exporting a group as table or log writes one line for every entry, in order, with the timestamp of this entry and the value of every dataset at this entry: in the table in physical units of that dataset unless raw values are asked for. The header of a table is written once, before the lines, and has the same columns in the same order with the same separator. The delivered count is the number of lines written, the number of log messages is that of those with at least the requested level.",
     ["inputs"], "every group with any number and shape of datasets, attributes and sub-groups, every combination of options",
     "The tests export one recording and check that a file appears.",
     [DR, CR], [("table", f"{DR}: save_csv"), ("log", f"{DR}: save_log"), ("levels", f"{CR}: count_errors_in_log; {DR}: warn_logs")],
     "path-sensitive abstract interpretation; text written per round of the loops over samples and columns", AI)

prop("R07", "Down-sampling takes every n-th sample of the requested range on all channels",
     "Down-sampling delivers the samples first, first+n, first+2n ... of the requested range confined to the recording, one per whole group of n samples, whatever the length of the recording relative to the blocks it is processed in. Voltage and current pass a low-pass that keeps its state from block to block and removes what the new rate can not represent, timestamps are never filtered. Exported cuts and plots use the same limits and factor for all channels, and the stored and named factor is the one applied.",
     ["inputs"], "every length of recording, range and factor, every number of blocks",
     "Blocks hold 40 seconds, the recordings of the tests fit in one; a factor that divides the block hides the rest.",
     [DR], [("down-sampling", f"{DR}: downsample"), ("export", f"{DR}: cut_and_downsample_to_file"), ("plots", f"{DR}: generate_plot_data")],
     "path-sensitive abstract interpretation; symbolic block positions, case split over minima", AI)

prop("T03", "Every accepted experiment can be expressed by its tasks",
     "Every value an accepted experiment or testbed may hold in a field that is handed on to a task is allowed there: type, value range, length, pattern and optionality of the task field include those of its source. Turning an accepted experiment into tasks is therefore never refused because of a voltage, data rate, name, ID or setting that the experiment itself was allowed to hold.",
     ["inputs", "configurations"], "every value of every field of an experiment, its target configurations, firmwares, MCUs and testbed",
     "Tests convert a few experiments with typical values; limits that differ between two models only show at their edges.",
     [f"{TK}/emulation.py", f"{TK}/programming.py", f"{TK}/firmware_mod.py", f"{TK}/observer_tasks.py", f"{TK}/testbed_tasks.py"],
     [("construction", f"{TK}: from_xp of every task"), ("limits", f"{DM}: field declarations of tasks and of their sources")],
     "abstract interpretation of the task construction; inclusion of the declared constraints of each source field in those of the task field it fills", AI)

prop("T04", "Start times of tasks mean the same instant however they are written",
     "The start time of a harvesting or emulation task denotes the same instant whether it is given as seconds since the epoch, as ISO text or as date, where a time without zone is local time. Once the task is accepted its start time always carries its zone; a task without start time stays without.",
     ["inputs", "configurations"], "every kind and value of start time, with and without time zone, of every task model",
     "Tests use one notation and one time zone; a wrong zone only shows on machines in another one.",
     [f"{TK}/emulation.py", f"{TK}/harvest.py"],
     [("conversion", f"{TK}/emulation.py, harvest.py: conversion before validation")],
     "path-sensitive abstract interpretation of the input conversion; case analysis over the kind of input", AI)

prop("P01", "The command line treats every file alike and reports damaged ones",
     "Every command processes each recording of the given file or directory (sub-folders only on request) exactly once and with the options as given, independent of the other files; a file that cannot be read is reported and skipped. Validation exits with zero exactly if every file could be read, is valid and has no time jump.",
     ["inputs", "configurations", "fault_sequences"], "every command, every combination of options, results and failures (TypeError, ValueError, KeyError, OSError) of the reader, every number of files",
     "Tests call the commands with one healthy file; what happens with the files after a damaged one, or a state carried from one file to the next, does not show.",
     ["shepherd_data/shepherd_data/cli.py"],
     [("commands", "shepherd_data/shepherd_data/cli.py: validate, extract, extract_meta, extract_uart, extract_gpio, downsample, plot, path_to_flist")],
     "path-sensitive abstract interpretation of every command with failing reader calls; boolean case analysis of the exit code; loop-carried state and argument flow", AI)

prop("D02", "The stored elements are those of the requested files, all of them",
     "Loading stored elements from a file or folder makes every element of every fixture file below it available under its type, regardless of upper or lower case, and no others; elements of one file never replace the collection loaded before. A cached copy is only used in place of the default files, when it is younger than one day and no reset was requested, and only default elements are cached. A path that is neither file nor folder and an unknown type are errors.",
     ["inputs", "histories", "configurations"], "every path, every content of the files, every age and content of the cache",
     "Tests load the default files on a machine without cache; what is used once a cache exists depends on the history of the machine.",
     [FX], [("loading, caching and insertion", f"{FX}: Fixtures.__init__, insert_file, insert_model, __getitem__, file_older_than")],
     "path-sensitive abstract interpretation of the constructor and insertion, facts about cache, path and reset on every way", AI)

prop("U01", "Decoding serial data yields every sent symbol once, in order and with its time",
     "Decoding the events of a serial line yields exactly one entry per transmitted frame, in order, with the transmitted value and the time its start-bit began, for every value, every pause between frames and edges that are shifted by a small part of a bit. Lines are cut after every line-end (carriage return, line feed or the pair of both) and carry the time of their first symbol. No symbol is lost: lines in sequence are all symbols, also after the last line-end.",
     ["inputs", "histories"], "every sequence of symbols (5 to 8 bits per frame) and pauses",
     "Tests decode one recorded text; values with the highest bit set, empty frames or single carriage returns do not occur in it.",
     ["shepherd_core/shepherd_core/decoder_waveform/uart.py"],
     [("decoder", "shepherd_core/shepherd_core/decoder_waveform/uart.py: get_symbols, get_lines, get_text, _add_duration")],
     "loops extracted as state machines by abstract interpretation; exhaustive exploration of their product with the sender; normal forms of array terms", AI)

prop("L01", "Converted solar traces follow their cell model row by row",
     "Converting recorded parameters of a solar cell walks once, without gap or overlap, through the rows of the requested time and stores time, voltage and current of the same rows, resampled to the interval of the new file. The open-circuit voltage is where the model of the cell gives no current, confined to the maximal voltage, the short-circuit current that at zero voltage, and modelled currents are never negative. Tracked voltage and current belong to the same point of the curve: that of the greatest power, or the last one below the requested share of the open-circuit voltage, whether that is known, zero or beyond the curve.",
     ["inputs"], "every recording of any length (a chunk holds about 6000 rows), every duration, maximal voltage, resolution and coefficients including darkness", "The test converts one short recording and compares nothing but the existence of files.",
     ["shepherd_data/shepherd_data/ivonne.py", "shepherd_data/shepherd_data/mppt.py"], [("conversions", "shepherd_data/shepherd_data/ivonne.py: Reader.convert_2_ivcurves, convert_2_ivsamples, upsample_2_isc_voc, get_voc, get_isc"), ("model and trackers", "shepherd_data/shepherd_data/mppt.py: iv_model, find_oc, MPPTracker, OptimalTracker, OpenCircuitTracker")],
     "path-sensitive abstract interpretation; columns of tables as terms in the order of their assignment, normal forms of ranges and positions, finite evaluation of the extracted position", AI)

prop("S01", "Content of files is only data and never runs or selects code",
     "Loading configurations, tasks, fixtures, recordings, firmware or traces from files never runs any part of their content, whatever it holds: text is only read by a parser limited to plain data, and the only objects restored from binary form are those of the own cache and of the documented solar tables. External programs are fixed by the library, get file names as single arguments and never pass a command shell. No text taken from content or arguments decides which code is imported or looked up.",
     ["inputs"], "every content of every file and every file name", "Tests load well-behaved files only, hostile content is not sampled.",
     [f"{DM}/base/shepherd.py", CR, "shepherd_core/shepherd_core/testbed_client/fixtures.py", "shepherd_core/shepherd_core/fw_tools/converter_elf.py"],
     [("text", "ShpModel.from_file, Reader.get_config, Reader.get_metadata, extract_tasks, prepare_task, Fixtures.insert_file: yaml.safe_load"), ("binary", "Fixtures.__init__, ivonne.Reader.__enter__: pickle.load"), ("programs", "elf_to_hex, SystemInventory.collect: subprocess.run"), ("imports", "WebClient._connect, PythonInventory.collect: import_module")],
     "whole-program effect analysis of references resolved through imports and aliases; abstract interpretation of arguments", AI)

prop("E01", "A value that may be nothing is never used as if it were there",
     "Wherever a value may be nothing - an optional setting, argument or attribute that was left out, a lookup with nothing as its default, a function that may answer nothing - the library finds out whether it is there before it reads from it, calculates or compares sizes with it, iterates over it or hands it to a function that needs it. Leaving it out, or getting nothing, leads to the documented default, to an answer of nothing or to a refusal that names the problem, never to a crash on a value that is nothing.",
     ["inputs", "configurations"], "every function and every combination of settings, arguments and entries that are left out", "Tests leave out few combinations; what is missing only matters on one of many paths.",
     [DM, CR, DR, "shepherd_core/shepherd_core/testbed_client", "shepherd_core/shepherd_core/fw_tools"],
     [("settings", "optional fields of all models and their validators"), ("results", "read_arch, get_datatype, get_voltage_step, get_observer_tasks, get_gpio_pin_num, downsample"), ("lookups", "query_database of Target and Firmware, Fixture.inheritance"), ("objects", "attributes of readers, decoder and clients that are filled later")],
     "path-sensitive nullness analysis of every function with summaries of the called ones", AI)

prop("M02", "Every model survives storing to a file, and only its own type is loaded",
     "Every value a configuration model can hold has an exact, safe YAML representation, so storing and printing never fail and never lose precision. Storing writes all explicitly set content under the name of the model to exactly the returned path; loading builds the same model from exactly this content and refuses files of another model. Only the safe YAML loader and writer are used.",
     ["inputs", "configurations"], "every model class, every field type and every content",
     "Tests store a few models with default content; rarely used field types and fractional durations only fail when used.",
     [f"{DM}/base/shepherd.py", "shepherd_core/shepherd_core/writer.py", DM],
     [("storing and loading", f"{DM}/base/shepherd.py: to_file, from_file, representers"), ("field types", "fields of all models")],
     "type reachability over all model fields against the registered representations; path-sensitive abstract interpretation of representers, storing and loading", AI)

na("N01", "Simulated energies agree with exact arithmetic within float accuracy",
   "The energy and storage voltage computed by a simulation over any number of samples deviate from the result in exact arithmetic by no more than the rounding of double precision allows. The deviation does not grow beyond a bound that is usable for recordings of hours.",
   ["inputs"], "every recording, every source configuration", "The error depends on length and content of the recording.",
   ["shepherd_core/shepherd_core/vsource/virtual_converter_model.py", "shepherd_core/shepherd_core/vsource/virtual_source_simulation.py"],
   [("accumulated storage voltage and energies", "VirtualConverterModel.update_cap_storage, simulate_source")],
   "A bound on accumulated rounding over data-dependent branches (thresholds are compared with the accumulated value) needs run-time ranges of values and step counts; an abstract interpretation of floats over millions of rounds gives a useless bound. The exact-arithmetic balance of one step is decided by V01.")

na("N02", "The low-pass for down-sampling attenuates aliases sufficiently",
   "After down-sampling, content of the recording above the new Nyquist frequency is attenuated by at least 40 dB while content below half of it passes unchanged within 1 dB.",
   ["inputs"], "every recording and factor", "Frequency response depends on the designed filter and the signal.",
   ["shepherd_data/shepherd_data/reader.py"], [("filter design and filtering by blocks", "Reader.downsample")],
   "The response is a numerical property of the filter coefficients scipy designs at run time. Static analysis decides its structure (cut-off, state carried over, which channels are filtered: R07), not its quality.")

na("N03", "A crash while recording leaves a readable recording",
   "When the process ends at any point while a recording is written, the file can be opened again and holds all buffers stored up to the last flush.",
   ["schedules", "crash_points"], "every point of time at which the process can end", "Crash points cannot be sampled sensibly.",
   ["shepherd_core/shepherd_core/writer.py"], [("files are kept open for writing by h5py", "Writer.__enter__, __exit__")],
   "The on-disk order of writes is decided inside the HDF5 library and the kernel; the repository calls neither flush nor swmr mode, so there is nothing in its source which could carry this guarantee.")

na("N04", "Trackers of maximum power harvest close to the optimum",
   "For every recorded curve a tracker extracts at least the share of the possible power its description promises.",
   ["inputs"], "every energy source over time", "Efficiency depends on dynamics of the source.",
   ["shepherd_data/shepherd_data/mppt.py", "shepherd_core/shepherd_core/vsource/virtual_harvester_model.py"], [("perturb and observe, constant voltage", "VirtualHarvesterModel.iv_mppt_po")],
   "A statement about the closed loop of tracker and physical source; no source model bounds it statically. That each algorithm makes the specified transition on every sample is decided by V03.")

na("N05", "Queries to the testbed server return what the server holds",
   "Components, results and users queried from a testbed server are exactly those the server stores at the time of the query.",
   ["histories"], "every state of the server", "The server is not part of the repository.",
   ["shepherd_core/shepherd_core/testbed_client/client_web.py"], [("requests over http", "WebClient.query_ids, query_names, query_item")],
   "Depends on a remote service which is not part of the source and whose interface is not fixed yet in this repository (token handling is marked as to do).")
