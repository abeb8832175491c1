F = "src/sweep/mod.rs"
M = [
 ("per-missing", F, "ParticleType::LocalPeriodic(_) => {}", "ParticleType::LocalPeriodic(_) => { num_missing_upwind[dir_index] += 0; }", []),
 ("no-recv-count-per", F, """ParticleType::RemotePeriodic(neighbour) => {
                            self.to_receive_count[neighbour.rank] += 1;""", """ParticleType::RemotePeriodic(neighbour) => {
                            self.to_receive_count[neighbour.rank] += 0;""", ["S01"]),
 ("loop-ignores-send", F, "|| self.remaining_to_send_count() > 0", "", ["S01"]),
 ("area-not-projected", F, "outgoing_rate_correction.clone() * (effective_area / total_effective_area);", "outgoing_rate_correction.clone() * (face.area / total_effective_area);", ["S02"]),
 ("ignore-boundary-area", "src/sweep/grid/cell.rs", ".map(|(face, _)| face)\n            .filter(|face| face.points_downwind(direction))", ".filter(|(_, n)| !n.is_boundary())\n            .map(|(face, _)| face)\n            .filter(|face| face.points_downwind(direction))", ["S02"]),
 ("no-source-split", "src/sweep/site.rs", "self.source.clone() / num_directions as Float", "self.source.clone() / (num_directions.min(3)) as Float", ["S02"]),
 ("levels-not-communicated-periodic", F, "} else if let ParticleType::RemotePeriodic(neighbour) = neighbour {\n                    data[neighbour.rank].push(TimestepLevelData { id, level });", "} else if let ParticleType::RemotePeriodic(_) = neighbour {\n", ["S01"]),
 ("level-floor", "src/sweep/timestep_level.rs", "ratio.log2().ceil()", "ratio.log2().round()", ["S03"]),
 ("lowest-not-clamped", "src/sweep/timestep_state.rs", "if level < self.current_lowest_allowed {", "if level < self.current_lowest_allowed && false {", ["S03"]),
 ("time-uses-current-level", F, "let timestep = self.timestep_state.timestep_at_level(level);", "let timestep = self.timestep_state.timestep_at_level(self.current_level);let _ = level;", ["S03"]),
 ("elapsed-after-advance", F, """        let time_elapsed = self.timestep_state.current_max_timestep();
        self.timestep_state.advance_allowed_levels();""", """        self.timestep_state.advance_allowed_levels();
        let time_elapsed = self.timestep_state.current_max_timestep();""", ["S03"]),
 ("threshold-ignored", F, "let relative_change = if rate.below_threshold(self.significant_rate_threshold) {", "let relative_change = if rate.below_threshold(units::PhotonRate::zero()) {", ["S03"]),
 ("drop-first-only", "src/sweep/communicator.rs", "self.wait_for_request(rank, *request);\n", "self.wait_for_request(rank, *request);\n                return;\n", ["S04"]),
 ("clear-without-complete", "src/sweep/communicator.rs", ".unwrap_or(true)\n            {", ".unwrap_or(true) || self.send_buffers[rank].len() > 5\n            {", ["S04", "S01"]),
 ("append-to-busy", "src/sweep/communicator.rs", "if self.requests[rank].is_none() {", "if self.requests[rank].is_none() || data.len() > 6 {", ["S04"]),
 ("deferred-lost-on-flush", F, "rate += std::mem::replace", "let _ = std::mem::replace", ["S02"]),
 ("bins-not-updated", F, "        self.sites.update_bins();\n        self.cells.update_bins();", "        self.cells.update_bins();\n        self.sites.update_bins();", []),
 ("local-active-ignores", F, "let is_active = self.is_active(neighbour.unwrap_id());\n                    if !is_active {", "let is_active = self.is_active(neighbour.unwrap_id()) || neighbour.is_remote();\n                    if !is_active {", ["S01"]),
 ("skip-level-with-few", F, "if counts[level.0] > 0 {", "if counts[level.0] > 1 {", ["S03","S01"]),
 ("periodic-flag-swap", F, "if d.periodic {\n", "if d.periodic && self.rank == 0 {\n", ["S02"]),
 ("outgoing-not-stored", F, "site.outgoing_total_rate[task.dir.0] = outgoing_rate;", "if self.current_level.0 == 0 { site.outgoing_total_rate[task.dir.0] = outgoing_rate; }", ["S02"]),
]
