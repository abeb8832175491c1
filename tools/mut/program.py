S = "src/source_systems.rs"
R = "src/arepo_postprocess/remap.rs"
M = [
("own-rank-always", S, "if closest_rank as Rank == **world_rank {", "if closest_rank as Rank == **world_rank && closest_rank < 3 {", ["R01"]),
("tie-both", S, "if closest_rank as Rank == **world_rank {", "if distance(&(**world_rank as usize)) <= distance(&closest_rank) {", ["R01"]),
("set-not-add", S, "***source_term += s.rate;", "***source_term = s.rate;", ["R01"]),
("lum-own", S, "all_sources.iter().map(|source| source.rate).sum();", "sources.sources.iter().map(|source| source.rate).sum();", ["R01"]),
("local-dist", S, "let distance = |rank: &usize| &all_distances[rank * sources.len() + i];", "let distance = |rank: &usize| &all_distances[(rank * sources.len() + i) / 2 * 2];", ["R01"]),
("chunk", S, "all_sources.chunks(CHUNK_SIZE)", "all_sources.chunks(CHUNK_SIZE).take(1)", ["R01"]),
("z-as-y", S, "pos.y().value_unchecked(),\n        pos.z()", "pos.z().value_unchecked(),\n        pos.z()", ["R01"]),
("answer-farther", R, "previously_closest.squared_distance > reply", "previously_closest.squared_distance < reply", ["M01"]),
("extent-gt", R, "squared_distance_extent < squared_distance\n", "squared_distance_extent < squared_distance * 0.5\n", ["M01"]),
("last-answer", R, "if is_closer {", "if is_closer || true {", ["M01"]),
("max-min", R, "**ion_frac = (*ion_frac).max(", "**ion_frac = (*ion_frac).min(", ["M01"]),
("no-max", R, "**temp = (*temp).max(*data.temperature);", "**temp = *data.temperature;", ["M01"]),
("first-last", R, "get_highest_or_lowest_snapshot_dir(path, true)", "get_highest_or_lowest_snapshot_dir(path, false)", ["M01"]),
("factor-inverse", R, "(*(cosmology.scale_factor() / remap_cosmology.scale_factor()))", "(*(remap_cosmology.scale_factor() / cosmology.scale_factor()))", ["M01"]),
("cosmo-h", R, "let little_h = read_attribute::<LittleH>(&first_snap_files[0]);", "let little_h = read_attribute::<LittleH>(&last_snap_files[0]);", []),
("cosmo-last", R, "let scale_factor = read_attribute::<ScaleFactor>(&first_snap_files[0]);", "let scale_factor = read_attribute::<ScaleFactor>(&last_snap_files[0]);", ["M01"]),
("numeric-sort", R, ".parse::<usize>()\n", ".parse::<usize>().map(|x| x.min(9))\n", ["M01"]),
("lost-outside", R, "rank = this_rank;\n", "continue;\n", ["M01"]),
("skip-empty-rank", R, "if self.data.is_empty() {\n            return None;", "if self.data.len() < 2 {\n            return None;", ["M01"]),
]
G = "src/arepo_postprocess/read_grid/mod.rs"
I = "src/arepo_postprocess/read_grid/id_cache.rs"
U = "src/arepo_postprocess/unit_reader.rs"
M += [
("grid-normal-same", G, "normal: -*connection.normal,", "normal: *connection.normal,", ["G01"]),
("grid-normal-swap", G, "self.add_neighbour(connection.id1, face2, ptype2);", "self.add_neighbour(connection.id1, face1.clone(), ptype2.clone());", ["G01"]),
("grid-one-side", G, "is_local1 || is_local2", "is_local1", ["G01"]),
("grid-one-lookup", G, "self.id_cache\n                .add_lookup_request_if_necessary(connection.id2);", "if self.id_cache.is_local(connection.id2) { self.id_cache.add_lookup_request_if_necessary(connection.id2); }", ["G01"]),
("grid-periodic-swap", G, "let ptype1 = self.get_particle_type(connection.id1, connection.type_.periodic1);", "let ptype1 = self.get_particle_type(connection.id1, connection.type_.periodic2);", ["G01"]),
("grid-bits", G, "(*value & (4 + 8)) >> 2", "(*value & (4 + 8)) >> 1", ["G01"]),
("grid-both-periodic", G, "|| (periodic1 && periodic2)", "", ["G01"]),
("grid-halo-all", G, ".extend(self.id_cache.iter().filter(|id| id.rank != self.rank));", ".extend(self.id_cache.iter());", ["G01"]),
("grid-one-chunk", I, "for chunk in divide_into_chunks_with_same_num_globally(&requests, CHUNK_SIZE) {", "for chunk in divide_into_chunks_with_same_num_globally(&requests, CHUNK_SIZE).into_iter().take(2) {", ["G01"]),
("grid-local-chunks", I, "for chunk in divide_into_chunks_with_same_num_globally(&requests, CHUNK_SIZE) {", "for chunk in requests.chunks(CHUNK_SIZE) {", ["G01"]),
("grid-cache-shadow", I, "if !self.is_local(id) {", "if !self.map.contains_key(&id) {", []),
("grid-units-h", U, "let h: i32 = read_attr(H_IDENTIFIER", "let h: i32 = read_attr(A_IDENTIFIER", ["G01"]),
("grid-units-a", "src/cosmology.rs", "a.powi(-dimension.a) * h.powi(-dimension.h)", "a.powi(-dimension.a) * h.powi(dimension.h)", ["G01"]),
("grid-size", G, "size: volume.cbrt(),", "size: (*volume / volume.cbrt()).sqrt() * 0.5,", ["G01"]),
]
W = "src/sweep/mod.rs"
D = "src/sweep/direction/mod.rs"
H = "src/chemistry/hydrogen_only/mod.rs"
MAIN = "src/main.rs"
TS = "src/sweep/time_series.rs"
M += [
("late-deferred", W, "        self.exchange_deferred();\n", "        if self.current_level.0 == 0 { self.exchange_deferred(); }\n", ["S02", "E01"]),
("deferred-as-incoming", W, "                if d.periodic {\n                    site.periodic_source[*d.dir]", "                if d.periodic && false {\n                    site.periodic_source[*d.dir]", []),
("periodic-now", W, "        self.periodic_corrections.push(RateData {", "        if self.rank > 0 { self.apply_periodic_corrections(); }\n        self.periodic_corrections.push(RateData {", ["S02", "E01"]),
("periodic-now-all", W, "        self.periodic_corrections.push(RateData {", "        self.apply_periodic_corrections();\n        self.periodic_corrections.push(RateData {", ["S02"]),
("rotate-own", D, "remap(&mut site.periodic_source, &old_dirs, &new_dirs);", "", []),
("floor-x", H, "self.temperature = temp_floor;", "", ["H01", "E01"]),
("floor-clamp", H, ".unwrap_or(IONIZED_HYDROGEN_FRACTION_EPSILON)\n            .clamp(", ".unwrap_or(IONIZED_HYDROGEN_FRACTION_EPSILON)\n            .max(0.0).min(1.0 - IONIZED_HYDROGEN_FRACTION_EPSILON).clamp(-1.0 + ", ["H01"]),
("no-clamp", H, ".clamp(xhii_floor, 1.0 - IONIZED_HYDROGEN_FRACTION_EPSILON);", ".clamp(xhii_floor, 1.0 );", ["H01"]),
("second-half", H, "                    timestep / 2.0,\n                    timestep_safety_factor,\n                    depth + 1,\n                    max_depth,\n                )\n", "                    timestep / 4.0,\n                    timestep_safety_factor,\n                    depth + 1,\n                    max_depth,\n                )\n", ["H01"]),
("no-restore", H, "                (self.temperature, self.ionized_hydrogen_fraction) = initial_state;\n", "                self.ionized_hydrogen_fraction = initial_state.1;\n", ["H01"]),
("abs-change", H, "let relative_change = (change / *value).abs()", "let relative_change = (change / *value)", ["H01"]),
("threshold", H, "if incoming_rate < self.rate_threshold {", "if incoming_rate * 0.5 < self.rate_threshold {", ["H01"]),
("absorbs-differently", H, "1.0 - (-neutral_hydrogen_number_density * sigma * self.length).exp();", "1.0 - (-neutral_hydrogen_number_density * sigma * self.length * 0.99).exp();", ["H01"]),
("total-density", H, "site.density / PROTON_MASS * (1.0 - site.species.ionized_hydrogen_fraction);", "site.density / PROTON_MASS * (1.0 - site.species.ionized_hydrogen_fraction * site.species.ionized_hydrogen_fraction);", ["H01"]),
("recomb-sign", H, "timestep * (c - xhii * (c + d))", "timestep * (c - xhii * (c - d))", ["H01"]),
]
