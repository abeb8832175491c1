O = "src/io/output/"
M = [
("no-init-wait", O+"mod.rs", "if i < **rank as usize {", "if i < **rank as usize / 2 {", ["O01"]),
("no-finish-wait", O+"mod.rs", "if i >= **rank as usize {", "if i > **rank as usize {", ["O01"]),
("all-at-once", O+"mod.rs", "if i < **rank as usize {", "if i < 1 {", ["O01"]),
("timer-reset", O+"timer.rs", "output_timer.next_output_time += parameters.time_between_snapshots;", "if parameters.time_between_snapshots > units::Time::zero() { while output_timer.next_output_time <= units::Time::seconds(6.0) { output_timer.next_output_time += parameters.time_between_snapshots; } }", ["O01"]),
("timer-gt", O+"timer.rs", "time.0 >= timer.next_output_time", "time.0 > timer.next_output_time", ["O01"]),
("no-final", O+"timer.rs", "if simulation_finished || time.0", "if (simulation_finished && timer.snapshot_num == 0) || time.0", ["O01"]),
("static-always", O+"timer.rs", "match !T::is_static() || is_first_snapshot {", "match !T::is_static() || is_first_snapshot || true {", ["O01"]),
("static-first-num", O+"timer.rs", "self.snapshot_num == 0", "self.next_output_time <= units::Time::zero() || self.snapshot_num == 0", ["O01"]),
("update-before-close", O+"plugin.rs", "Timer::update_system\n                    .after(close_file_system)", "Timer::update_system\n                    .before(open_file_system)", ["O01"]),
("first-ignored", O+"timer.rs", ".unwrap_or_else(units::Time::zero),", ".filter(|t| *t > units::Time::seconds(1.0)).unwrap_or_else(units::Time::zero),", ["O01"]),
("write-start", O+"mod.rs", "&data[data_start..data_end], region.start..region.end", "&data[data_start..data_end], if region.file_index == 0 { region.start..region.end } else { 0..region.size() }", ["O01"]),
("data-start", O+"mod.rs", "data_start += region.size();", "data_start = data.len().min(data_start + region.size()); if region.file_index == 3 { data_start = data.len() - (data.len() - data_start); }", []),
("dims-swapped", O+"mod.rs", "write_dimension(dataset, TIME_IDENTIFIER, time);\n    write_dimension(dataset, MASS_IDENTIFIER, mass);", "write_dimension(dataset, TIME_IDENTIFIER, mass);\n    write_dimension(dataset, MASS_IDENTIFIER, time);", ["O01"]),
("attr-first-file", O+"attribute.rs", "for FileWithRegion { file, .. } in file.0.as_ref().unwrap().iter() {", "for FileWithRegion { file, .. } in file.0.as_ref().unwrap().iter().rev().take(3) {", ["O01"]),
("file-padding", O+"mod.rs", "((parameters.num_output_files as f64).log10().floor() as usize) + 1", "((parameters.num_output_files as f64).log10().floor() as usize) + region_pad(assignment)", []),
("stop-before", "src/simulation_plugin/mod.rs", "if **current_time >= time {", "if **current_time > time {", ["O01"]),
("desired-static", O+"parameters.rs", "fields.iter().any(|field| field == T::name())", "fields.iter().any(|field| field.starts_with(T::name()) && field.len() < 11)", ["O01"]),
("create-late", O+"mod.rs", "for i in 0..**world_size {\n        if i < **rank as usize {", "for i in 0..**world_size {\n        if i < (**rank as usize) && !(**rank == 3 && i == 1) {", ["O01"]),
]

IN = "src/io/input/mod.rs"
AU = "src/arepo_postprocess/unit_reader.rs"
T = "src/sweep/time_series.rs"
TS = "src/io/time_series.rs"
M += [
("rd-last-chunk", IN, ".min(region.end);", ".min(region.end.max(region.start + 1));", []),
("rd-start", IN, "let start = region.start + i * chunk_size;", "let start = if region.file_index > 1 { i * chunk_size } else { region.start + i * chunk_size };", ["O02"]),
("rd-rem", IN, "if dataset_size.rem_euclid(chunk_size) > 0 {", "if dataset_size.rem_euclid(chunk_size) > 1 {", ["O02"]),
("rd-factor", IN, "convert_base_units(factor_written / factor_read)", "convert_base_units(factor_read / factor_written)", ["O02"]),
("rd-first-file-factor", IN, "get_dataset_and_conversion_factor_for_file(&descriptor, &self.files[region.file_index]);", "{ let (s, _) = get_dataset_and_conversion_factor_for_file(&descriptor, &self.files[region.file_index]); (s, get_dataset_and_conversion_factor_for_file(&descriptor, &self.files[0]).1) };", ["O02"]),
("rd-full", IN, "let num_ranks = 1;", "let num_ranks = Communicator::<usize>::new().size();", ["O02"]),
("rd-cosmo", AU, "1.0 / self.get_cosmological_factor(&dimension)", "self.get_cosmological_factor(&dimension)", ["O02"]),
("rd-vel", AU, "let length = length + velocity;", "let length = length;", ["O02"]),
("rd-only-a", AU, "dimension.a != 0 || dimension.h != 0", "dimension.a != 0", ["O02"]),
("rd-cgs-mass", AU, "0.001f64.powi(dimension.mass)", "0.001f64.powi(dimension.mass.abs())", ["O02"]),
("rd-dim-unchecked", IN, "    assert_eq!(\n        descriptor.read_dimension(&set),", "    debug_assert_eq!(\n        descriptor.read_dimension(&set),", []),
("ts-local", T, "let total_mass = compute_global_sum(mass_av_frac.iter().map(|(mass, _)| **mass));", "let total_mass = mass_av_frac.iter().map(|(mass, _)| **mass).sum::<crate::units::Mass>();", ["O03"]),
("ts-mass-for-volume", T, ".map(|(temp, cell)| **temp * cell.volume()),", ".map(|(temp, cell)| **temp * cell.volume() * (cell.neighbours.len().min(1) as f64)),", []),
("ts-weighted", T, ".map(|(rate, ion_frac, cell)| **rate * **ion_frac * cell.volume()),", ".map(|(rate, ion_frac, cell)| **rate * (1.0 - **ion_frac) * cell.volume()),", ["O03"]),
("ts-last-only", TS, ".map(|ev| Entry {", ".skip_while(|_| false).filter(|_| time.value_unchecked() > 0.0 || parameters.num_output_files < 2).map(|ev| Entry {", []),
("ts-truncate", TS, ".append(true)", ".write(true).truncate(true)", ["O03"]),
("ts-keep-old", TS, 'File::create(filename).expect', 'OpenOptions::new().create(true).append(true).open(filename).expect', ["O03"]),
("ts-delete-not", "src/io/output/mod.rs", "fs::remove_dir_all(&parameters.output_dir)\n", "fs::remove_dir_all(parameters.snapshot_dir())\n", ["O03"]),
("ts-overwrite-deletes", "src/io/output/mod.rs", "parameters::HandleExistingOutput::Overwrite => {}", "parameters::HandleExistingOutput::Overwrite => { let _ = fs::remove_dir_all(parameters.snapshot_dir()); }", ["O03"]),
]
