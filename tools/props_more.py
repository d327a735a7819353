EVNOTE = ("TLC decides every recorded call with exact rational arithmetic; assurance is over the calls generated in a run (VERIF_SEED), "
          "not over all inputs. Trusted: the recording of public results, the rational-number override of TLC, the stated tolerance for floats.")

prop("P04", "An expression has the value its operators and precedence give, or is refused",
     "A well-formed expression evaluates, in each period, to the value its operators, precedence, associativity and parentheses give on the values it refers to; division by zero gives zero. "
     "Spacing, line breaks and the way numbers are written (decimal, scientific) do not matter, and an expression written out and read again has the same values. "
     "A malformed expression, or one with an unknown reference, is refused and never silently evaluated in part.",
     ["inputs", "programs"], "for all texts, all operator combinations and all environments of values",
     "Tests list some forty expressions; precedence and associativity over every operator pair, damaged texts and number formats are combinatorial.",
     [S + "expression/expression.py", S + "expression/expression_evaluator.py"],
     [("Expression.setup_from_expression / evaluate", S + "expression/expression.py"), ("lexer, shunting-yard and eval_tokens", S + "expression/expression_evaluator.py")],
     EVNOTE + " All token sequences up to length 4 (thorough: 5) over eight tokens and all pairs of operators are covered exhaustively.")
prop("P06", "Rates, volumes and series obey one algebra: nothing gained, lost or misplaced",
     "Calendar-day rate equals stream-day rate times regularity through every conversion, and adding rates adds both their calendar-day and stream-day amounts. "
     "Volumes are calendar-day rates times exact period length and cumulative volumes their running sum; unit conversions use one factor per pair of units. "
     "Selecting, cutting, joining or extending a series gives each period its own value, and mismatching units, rate types, gaps or overlaps are refused.",
     ["inputs"], "for all series, periods, regularities (including 0), units and rate types",
     "Tests use a few two- or three-period series; conversions at regularity 0, unavailable values, part-day periods and joins are products of cases.",
     [S + "common/utils/rates.py", S + "common/units.py", S + "common/list/list_utils.py", S + "common/time_utils.py"],
     [("TimeSeriesRate.__add__ / to_calendar_day / to_stream_day / to_volumes", S + "common/utils/rates.py"), ("Unit.to", S + "common/units.py")],
     EVNOTE)
prop("P07", "Resampling to another frequency preserves volumes and validity",
     "Resampled to days, months or years, a result is reported on exactly the calendar dates of that frequency (and its own first and last date). "
     "Every rate keeps the volume of each new period and every cumulative its level, a period is valid only if it was valid throughout, and other values are those in force at the start of the new period. "
     "This holds for every series of a whole result, and resampling does not change the original.",
     ["inputs"], "for all results, frequencies, period layouts (including times of day and leap years) and regularities",
     "Tests have a few aligned series; periods crossing month and year boundaries, part-days and varying regularity are not exhausted.",
     [S + "common/utils/rates.py", S + "common/time_utils.py", S + "presentation/json_result/result/tabular_time_series.py", S + "presentation/json_result/result/results.py"],
     [("TimeSeries*.resample", S + "common/utils/rates.py"), ("create_start_and_end_dates_for_periods", S + "common/time_utils.py"), ("EcalcModelResult.resample", S + "presentation/json_result/result/results.py")],
     EVNOTE)
prop("P13", "Prognosis exports put every contribution in its column, period and sign",
     "The LTP and STP exports of an installation have, per reporting period, one row and the columns of its category, each holding the period's amount of exactly the contributions whose fuel, consumer and power-source categories in force belong to the column. "
     "Amounts are volumes of calendar-day rates (negative where the column says so), power is reported in GWh including cable loss, and the maximum from shore is the highest in the period. "
     "A value that could not be computed counts as nothing and leaves the others in place.",
     ["inputs", "configurations"], "for all models, categories (also dated ones), installation kinds and reporting frequencies",
     "Snapshot tests freeze a few models; the product of categories over time, periods crossing changes, and missing values is not asserted.",
     [S + "presentation/exporter/queries.py", S + "presentation/exporter/infrastructure.py", S + "presentation/exporter/configs/configs.py", "src/ecalc_cli/io/output.py"],
     [("FuelQuery / PowerConsumptionQuery / ElectricityGeneratedQuery / EmissionQuery", S + "presentation/exporter/queries.py"), ("TimeSeriesAttribute.datapoints", S + "presentation/exporter/infrastructure.py")],
     EVNOTE)
prop("P14", "Emission intensity is the emitted CO2 per exported amount, cumulative and yearly",
     "The intensity reported for a period is the CO2 emitted from the start of the run to its end, in kilograms, divided by the hydrocarbons exported over the same time, per Sm3 and per barrel of oil equivalents; the yearly intensity is the same quotient over the year alone. "
     "Where nothing was exported there is no intensity, and a model without CO2 has none at all. "
     "It is reported on the periods of the results.",
     ["inputs"], "for all models, exports (also zero), emissions and frequencies",
     "Tests use constant series; zero exports, missing CO2, part-years and different emission names are not combined.",
     ["src/ecalc_cli/emission_intensity.py", S + "domain/emission/emission_intensity.py"],
     [("EmissionIntensityCalculator.get_results", "src/ecalc_cli/emission_intensity.py"), ("EmissionIntensity.calculate_cumulative / calculate_for_periods", S + "domain/emission/emission_intensity.py")],
     EVNOTE)
prop("P15", "A run writes the files asked for, and they show its results",
     "A run writes exactly the files its options ask for, named by the full prefix, and each shows every value of the results once, under its component, quantity, unit and date, in the frequency and date format asked for. "
     "Numbers are shown to at least seven significant digits or six decimals (five in tables), values that could not be computed as nan or null. "
     "Cache sizes are taken as given (0 disables) and the Java process started is stopped.",
     ["inputs", "configurations"], "for all models and all combinations of command line options",
     "Tests run a few option sets on fixed models and compare snapshots; prefixes, formats, frequencies, units and missing values are a product.",
     ["src/ecalc_cli/commands/run.py", "src/ecalc_cli/io/output.py", S + "infrastructure/file_utils.py", S + "presentation/json_result/result/tabular_time_series.py", S + "presentation/simple_result/simple.py", S + "common/math/numbers.py"],
     [("run", "src/ecalc_cli/commands/run.py"), ("get_result_output / to_json", S + "infrastructure/file_utils.py"), ("Numbers.format_results_to_precision", S + "common/math/numbers.py")],
     EVNOTE)
prop("P16", "A delta profile is changed minus reference, component by component, over time",
     "Comparing two results gives, on all dates of either within their common span, each component's energy, power and emissions in the changed minus the reference result, taking the values in force; what only one of them has counts as zero in the other. "
     "A component is valid where it is valid in both; components in different units are reported and not compared; results that do not overlap are refused. "
     "The compared results are not changed.",
     ["inputs"], "for all pairs of results with any dates, components, units and emissions",
     "Tests compare a few aligned pairs; different dates, spans, components, emissions and power in one only are combinations.",
     [S + "presentation/simple_result/simple.py"],
     [("SimpleResultData.delta_profile / fit_to_periods / subtract / normalize_components", S + "presentation/simple_result/simple.py")],
     EVNOTE)
prop("P17", "A sampled compressor uses the energy its table says, refusing what lies outside",
     "A compressor given as a table of rates and/or pressures with fuel or power uses, at each operating point, the value interpolated in the table: along the line, the triangulated hull or the convex hull of the points, after a too low rate is raised, a too high suction pressure or a too low discharge pressure is moved to the border of the table. "
     "A point that cannot be moved into the table that way is outside capacity and has no value; a rate of zero uses nothing. "
     "Energy adjustment, turbine fuel and power loss apply as declared.",
     ["inputs"], "for all tables of one, two or three variables and all operating points",
     "Tests use a few tables and points; degenerate sides, border points, constant columns, huge rates and adjustment combinations are inputs no sample covers.",
     [S + "domain/process/compressor/core/sampled", S + "domain/process/compressor/core/base.py"],
     [("CompressorModelSampled.evaluate", S + "domain/process/compressor/core/sampled/compressor_model_sampled.py"), ("get_lower_upper_qhull", S + "domain/process/compressor/core/sampled/convex_hull_common.py")],
     EVNOTE)
prop("P18", "A pump draws the power its chart gives, and is invalid beyond its capacity",
     "A pump with a single or variable speed chart draws the power density x head x rate / efficiency, where a rate below the minimum flow line is raised to it, a head below the lowest curve is raised to it, and the efficiency is that of the nearest curves weighted by nearness. "
     "It is invalid exactly where the head is above the fastest curve by more than the head margin (in meters of liquid column; within it the head is the curve's), or the rate above the chart's highest. "
     "At no rate it draws nothing; units, row and column order, condition, regularity and power loss apply as declared, and without an efficiency column it is 100 % efficient.",
     ["inputs"], "for all charts with any number of speeds and all rates, pressures, densities and margins",
     "Tests use a couple of charts and points; borders, corners, units, margins and several speeds combine into inputs no sample covers.",
     [S + "domain/process/pump/pump.py", S + "domain/process/value_objects/chart", S + "presentation/yaml/mappers/charts/user_defined_chart_data.py", S + "presentation/yaml/mappers/facility_input.py"],
     [("PumpModel.simulate", S + "domain/process/pump/pump.py"), ("Chart", S + "domain/process/value_objects/chart/chart.py"), ("UserDefinedChartData.from_resource", S + "presentation/yaml/mappers/charts/user_defined_chart_data.py")],
     EVNOTE)
prop("P19", "A consumer system runs by its first feasible setting, crossovers included",
     "In each period a pump or compressor system runs by the first operational setting in which every consumer has the capacity, by the last one where there is none, and reports which. "
     "In a setting with crossover a consumer given more than its highest rate at its pressures (limited also by its turbine) keeps that highest rate and passes the rest on to its receiver, unless the receiver's discharge pressure is lower. "
     "The system uses the sum of what its consumers use at these rates, is valid where all of them are, and reports each consumer's rate, pressures, energy and validity in the setting used.",
     ["inputs", "configurations"], "for all systems, settings, crossovers without loops, rates, fractions, pressures and densities",
     "Tests use a few systems with one or two settings; priorities, crossovers, ties and borders over time combine into inputs no sample covers.",
     [S + "domain/infrastructure/energy_components/legacy_consumer/system", S + "domain/process/pump/pump.py", S + "domain/process/compressor/core/base.py", S + "domain/process/compressor/core/sampled", S + "presentation/yaml/mappers/consumer_function_mapper.py", S + "presentation/json_result/mapper.py"],
     [("ConsumerSystemConsumerFunction.evaluate / calculate_operational_settings_after_cross_over", S + "domain/infrastructure/energy_components/legacy_consumer/system/consumer_function.py"), ("get_max_standard_rate", S + "domain/process/compressor/core/base.py"), ("OperationalSettingHelper", S + "presentation/json_result/mapper.py")],
     EVNOTE)
W = "src/ecalc_neqsim_wrapper/"
prop("P20", "A fluid has the properties of its own state, whatever was asked before",
     "The properties, rates and gas phase the fluid service gives for a composition, equation of state, pressure and temperature or enthalpy are those the thermodynamic engine gives for that very state (pressure, temperature and enthalpy told apart to the sixth decimal), whatever was asked before, however large the caches are, and from whichever thread; standard volumes are of the gas phase. "
     "A flash that fails or misses its enthalpy is refused and not remembered; the caches keep their sizes, drop what was used longest ago and count hits, misses and evictions exactly. "
     "Ending the engine process (also when the run crashed, unless told to keep it) forgets all that was remembered, only one engine runs at a time, and settings are refused once they can no longer take effect.",
     ["histories", "schedules", "inputs"], "for all sequences of questions, settings, failures, shutdowns and restarts, and pairs of threads",
     "Caches, singletons and process restarts are state carried between calls; tests look at single calls and a handful of orders.",
     [W + "fluid_service.py", W + "cache_service.py", W + "java_service.py", W + "thermo.py", W + "mappings.py"],
     [("NeqSimFluidService", W + "fluid_service.py"), ("LRUCache / CacheService", W + "cache_service.py"), ("NeqsimService", W + "java_service.py"), ("NeqsimFluid", W + "thermo.py")],
     "The state machine FluidService.tla is model checked on all short histories, and those histories are replayed against the real service over a stand-in engine. " + EVNOTE)
prop("P21", "A compressor chart answers as its curves say, and says where it ends",
     "A chart given as curves in any order gives, at any speed and rate, the head and efficiency of the curve of that speed, in between those of the neighbouring curves mixed by speed at the same share of the range of rates; below the lowest rate it recirculates, above the highest and outside the speeds it is not valid, and its flag says so. "
     "At any rate and head it tells the least rate (never left of the surge line moved by the control margin), the lowest head, and whether rate or head are above the chart. "
     "The efficiency at a rate and head is that of the nearest curves weighted by nearness.",
     ["inputs"], "for all charts with any number of curves and points, margins, speeds, rates and heads",
     "Tests look up a few points of one or two charts; curves between, borders, margins and order of input combine.",
     [S + "domain/process/value_objects/chart", S + "presentation/yaml/mappers/charts/user_defined_chart_data.py"],
     [("CompressorChart", S + "domain/process/value_objects/chart/compressor/compressor_chart.py"), ("Chart / ChartCurve", S + "domain/process/value_objects/chart/base.py")],
     EVNOTE)
prop("P23", "A compressor train gives the pressure asked at the speed needed, or says why not",
     "In each period a train on a common shaft runs at the slowest speed that takes the rate and gives the discharge pressure; where even that gives too much, its pressure control brings it down (choking downstream or upstream, or recirculating by the same share, pressure ratio or mass in all stages), and where the rate or pressure is above what it gives at its fastest it says which. "
     "From stage to stage the gas loses the pressure drop, is cooled, leaves its liquid, and is lifted by the head and efficiency the chart has at the rate with recirculation, and all reported rates, densities, temperatures, heads, efficiencies, powers, flags and validity follow from that. "
     "The train's power is the sum of the stages' (adjusted where the user says so), a power limit is told when exceeded, and the highest rate it tells with choke control is one it takes and cannot exceed.",
     ["inputs", "configurations"], "for all trains of one to three stages, charts, fluids, pressure controls, limits, rates and pressures",
     "The trains' tests need the thermodynamic engine and use a few fixed trains; controls, borders, condensation, drops and limits combine into inputs no sample covers.",
     [S + "domain/process/compressor/core/train", S + "domain/process/compressor/core/results.py", S + "domain/process/value_objects/chart/compressor", S + "presentation/yaml/mappers/consumer_function_mapper.py", S + "presentation/json_result/mapper.py"],
     [("CompressorTrainCommonShaft", S + "domain/process/compressor/core/train/compressor_train_common_shaft.py"), ("CompressorTrainStage", S + "domain/process/compressor/core/train/stage.py"), ("CompressorTrainResultSingleTimeStep", S + "domain/process/compressor/core/results.py")],
     "The fluids are a stand-in engine's. " + EVNOTE)
prop("P24", "A simplified compressor train has the stages, charts and power its input asks",
     "A simplified train has as few stages as the allowed pressure ratio per stage permits (or those given), each lifting by the same pressure ratio, with charts scaled from the design point given, or found from the whole input so that every rate and head of it fits and a chart a tenth smaller would not do. "
     "Each stage's head follows from the gas at its inlet and outlet, its power from head, efficiency and mass rate with recirculation, and a rate or head above the chart makes the period invalid and is told. "
     "The train's power is the sum of the stages' (adjusted where the user says so), a power limit is told when exceeded, and the highest rate it tells is that of its tightest stage.",
     ["inputs", "configurations"], "for all simplified trains with known or unknown stages, charts, fluids, limits, rates and pressures",
     "The tests need the thermodynamic engine and use a few fixed trains; charts found from the input depend on all its periods at once.",
     [S + "domain/process/compressor/core/train/simplified_train", S + "domain/process/value_objects/chart/compressor", S + "domain/process/compressor/core/train/stage.py", S + "presentation/yaml/mappers/simplified_train_mapping_utils.py", S + "presentation/yaml/mappers/consumer_function_mapper.py"],
     [("CompressorTrainSimplified", S + "domain/process/compressor/core/train/simplified_train/simplified_train.py"), ("CompressorChartCreator", S + "domain/process/value_objects/chart/compressor/chart_creator.py"), ("calculate_number_of_stages", S + "presentation/yaml/mappers/simplified_train_mapping_utils.py")],
     "The fluids are a stand-in engine's. " + EVNOTE)
prop("P25", "A train with side streams and an interstage pressure meets both ends",
     "In a train with several streams each given rate goes to the stage its stream is connected to, whatever the order of listing: gas taken out leaves the composition as it is, gas let in is mixed with what comes from the stage before, and mass and moles are conserved from stage to stage. "
     "With an interstage pressure the train runs at the least speed that lets both its parts take their rates and give their pressures, each part's own pressure control removes what is too much, and a pressure that is not met, at the interstage or at the end, is told. "
     "All that is reported of stages, streams, power and validity follows as for a train with one stream.",
     ["inputs", "configurations"], "for all trains of up to three stages with several ingoing and outgoing streams, an interstage pressure, charts, fluids, controls, rates and pressures",
     "The tests need the thermodynamic engine and use a few fixed trains; the order of streams, zero rates, fast running parts and the controls of both parts combine into inputs no sample covers.",
     [S + "domain/process/compressor/core/train", S + "domain/process/entities/process_units", S + "process/fluid_stream/stream_mixer.py", S + "presentation/yaml/mappers/consumer_function_mapper.py", S + "presentation/json_result/mapper.py"],
     [("CompressorTrainCommonShaft.find_and_calculate_for_compressor_train_with_two_pressure_requirements", S + "domain/process/compressor/core/train/compressor_train_common_shaft.py"), ("StreamMixer", S + "process/fluid_stream/stream_mixer.py"), ("LegacySplitter", S + "domain/process/entities/process_units/legacy_splitter/legacy_splitter.py")],
     "The fluids are a stand-in engine's. " + EVNOTE)

prop("P26", "A pump simulation gives the pump's operating point and all its streams",
     "A pump simulation runs its pump, in every period of the model, at the rate asked for or its minimum flow (its own limit and the chart's), at the head asked for or the lowest the chart has there, and reports the power, efficiency, speed and pressures that the chart gives at that point, and what recirculates and is choked. "
     "It tells exactly which of the chart's limits, highest rate and highest head, are exceeded, and the streams on the connections of its process follow from the same point: mass is conserved along the way and the choke only takes off what is more than asked for. "
     "A pump not running takes no power and leaves the pressure as it is; models with a pump or an inlet that cannot be are refused with an error that says so.",
     ["inputs", "configurations"], "for all charts, minimum flows, periods of the model, rates, pressures and densities",
     "The tests use two charts and a few points; efficiency and speed between curves, corners of the chart, and models beginning in the middle of or without a start of their time series are inputs no sample covers.",
     [S + "process/pump", S + "presentation/yaml/mappers/pump_process_simulation_mapper.py", S + "common/variables.py", S + "presentation/yaml/model.py"],
     [("Pump.evaluate", S + "process/pump/pump.py"), ("PumpProcessSimulation.evaluate", S + "process/pump/pump_process_simulation.py"), ("YamlModel.get_pump_process_simulations", S + "presentation/yaml/model.py")],
     EVNOTE)

prop("P27", "A stream is shared by parallel items without loss, overflow going on to others",
     "When a stream is shared, every item gets the part it is due; what is more than an item can take goes on to the item its overflow leads to, together with what that item is due itself, and so on, in whatever order items and overflows are listed. "
     "Nothing is lost or made on the way, the streams handed out are otherwise like the stream shared, and an overflow that comes back to where it started is refused. "
     "Of several ways to share, in order of preference, the first is taken that every item can take, and the last when there is none.",
     ["inputs", "configurations"], "for all parts, capacities, overflows without circles, orders of listing, and lists of preferences",
     "The tests share one stream between a few items listed in the order in which they overflow; which share goes where shows only in the other orders.",
     [S + "process/stream_distribution"],
     [("CommonStreamDistribution.get_streams", S + "process/stream_distribution/common_stream_distribution.py"), ("PrioritiesStreamDistribution.get_streams", S + "process/stream_distribution/priorities_stream_distribution.py"), ("IndividualStreamDistribution.get_streams", S + "process/stream_distribution/individual_stream_distribution.py")],
     MODELNOTE)

prop("P28", "A process pipeline's solver finds settings that work, or says why none do",
     "Each unit of a process pipeline (pressure drop, choke, cooler, scrubber, mixer, splitter, recirculation loop, compressor) makes of a stream the stream its physics says, or refuses it for the reason there is. "
     "The settings a solver returns as a solution - speed, recirculation, choke - when applied run every compressor within its chart and give the pressure asked for, with no more speed or recirculation than needed; a failure is reported only where no setting works, with the reason and the pressure that can be reached. "
     "Sections in a row, on one shaft or several, each get their own pressure, and what is told to be too much of a rate leaves a rate that works and is no larger than it must be.",
     ["inputs", "configurations", "histories"], "for all charts, fluids, pressures, rates, stages, side streams, pressure controls and orders of questions",
     "The tests solve a few two-stage pipelines at pressures well inside the charts; what is found near capacity, near surge, for small chokes or after another question shows only in a search.",
     [S + "process/process_solver", S + "process/process_units", S + "process/process_pipeline"],
     [("PipelineSectionSolver.find_solution", S + "process/process_solver/pipeline_section_solver.py"), ("MultiPressureSolver.find_solution", S + "process/process_solver/multi_pressure_solver.py"), ("FeasibilitySolver.get_excess_rate", S + "process/process_solver/feasibility_solver.py"), ("Compressor.propagate_stream", S + "process/process_units/compressor.py")],
     MODELNOTE)

prop("P22", "A model that can not be right is refused with a message, any other is run",
     "A model with anything wrong in its names, references, files, expressions, dates, kinds of energy, fuels or operational settings is refused with a message that says so, however the mistake combines with the rest of the model. "
     "A model with nothing wrong is accepted and evaluated, and no model ends in an internal error. "
     "What is refused for one part of a model is refused for every other part of the same kind, and in every period in which it counts.",
     ["inputs", "configurations"], "for all models made of components, time series, variables, facilities, trains, turbines, fuels and systems, and all mistakes and combinations of mistakes in them",
     "The tests try one mistake at a time in one small model; the mistake a check forgets shows in one kind of place, in one period, or only next to another mistake.",
     [S + "presentation/yaml"],
     [("YamlModel.validate_for_run", S + "presentation/yaml/model.py"), ("YamlAsset.validate_unique_component_names", S + "presentation/yaml/yaml_types/components/yaml_asset.py"), ("check_field_model_reference", S + "presentation/yaml/yaml_types/models/model_reference_validation.py"), ("ConsumerFunctionMapper", S + "presentation/yaml/mappers/consumer_function_mapper.py"), ("EcalcModelMapper", S + "presentation/yaml/mappers/component_mapper.py")],
     MODELNOTE)

prop("P29", "Results and flow diagram hold every component once, where it belongs",
     "The results of a run contain every component of the model that takes part in its period exactly once, with the component it belongs to as parent, its type and level, the unit of its fuel or power and one series for each emission of it. "
     "They contain a result per model for every entry in use of every consumer, and of every compressor or pump in a system. "
     "The flow diagram shows the same components in the installation they belong to, with fuel to all that burn it, emissions from all that emit and electricity from a generator set to all it feeds, for the period of the model.",
     ["inputs", "configurations"], "for all models of any number of installations, generator sets, consumers, systems and emitters, and all periods of them and their fuels",
     "The tests look at a few models with one of each; what is left out, doubled or put under something else depends on what stands next to it, how many there are, and which entries fall in the period.",
     [S + "presentation/flow_diagram", S + "presentation/json_result"],
     [("EnergyModelFlowDiagram", S + "presentation/flow_diagram/energy_model_flow_diagram.py"), ("get_asset_result", S + "presentation/json_result/mapper.py"), ("EnergyContainerEnergyModel", S + "presentation/yaml/domain/energy_container_energy_model_builder.py")],
     MODELNOTE)

prop("P30", "Models that mean the same have the same results, whatever was run before",
     "The results of a model depend only on what it means: not on the order its definitions and keys are written in, the names given to facilities, models, fuels, series and variables, definitions nobody uses, "
     "terms of a sum written in another order, an entry in time repeated as a new one, or parts of it kept in included files. "
     "They do not depend either on what was loaded or run before in the same process, or on the model being evaluated again, and models that mean different things do not get each other's results.",
     ["inputs", "histories", "configurations"], "for all models, all ways to write them and all histories of runs of several models in one process",
     "The tests run every model once, in the way it happens to be written; state kept between runs and dependence on order show only in histories and in other ways to write the same model.",
     [S + "presentation/yaml"],
     [("PyYamlYamlModel", S + "presentation/yaml/yaml_models/pyyaml_yaml_model.py"), ("YamlModel", S + "presentation/yaml/model.py"), ("YamlReferenceService", S + "presentation/yaml/yaml_reference_service.py"), ("ConsumerFunctionMapper", S + "presentation/yaml/mappers/consumer_function_mapper.py"), ("FileResourceService", "src/ecalc_cli/infrastructure/file_resource_service.py")],
     MODELNOTE)
prop("P31", "Process simulations become exactly the process that is written",
     "A process simulation of a model becomes, per target, the units written in their order, split into sections at the constraints, with inlet and outlet, the recirculation loops its anti-surge control "
     "and the choke its pressure control stand for, one shaft for its compressors, and every unit its own. Every section has its target pressure at its end (the last before the outlet), and charts, "
     "control margins, streams, fluids, conditions, rate fractions, overflows and changes at events have the values written for every period. "
     "Unknown or repeated references, names, constraints and events, and controls that do not fit the section, are refused with an error that says so, and nothing else is.",
     ["inputs", "configurations"], "for all pipelines, constraints, definitions, streams, events and periods",
     "The tests map a few pipelines with one or two sections; which loop, choke and pressure a unit gets depends on the whole line, and on what is referred to and what is written in place.",
     [S + "presentation/yaml/mappers", S + "ecalc_model", S + "process/process_solver", S + "process/process_pipeline"],
     [("ProcessSimulationMapper", S + "presentation/yaml/mappers/process_simulation_mapper.py"), ("ProcessPartitioner", S + "presentation/yaml/mappers/process/process_partitioner.py"),
      ("MappedSectionValidator", S + "presentation/yaml/mappers/process/mapped_section_validator.py"), ("assemble_process_section", S + "process/process_solver/section_assembly.py"),
      ("EcalcEventMapper", S + "presentation/yaml/mappers/ecalc_event_mapper.py")],
     MODELNOTE)
