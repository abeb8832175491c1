M = [
("owner-off", "src/domain/decomposition.rs", ".map(|x| x + 1)\n            .unwrap_or_else(|e| e) as i32", ".unwrap_or_else(|e| e) as i32", ["D02"]),
("middle-upper", "src/domain/key.rs", "Self(start.0 + (end.0 - start.0) / 2)", "Self(end.0 - (end.0 - start.0) / 4)", ["D02"]),
("load-local", "src/domain/decomposition.rs", "self.comm.all_reduce_sum(&local_work)", "self.comm.all_reduce_sum(&local_work); local_work", ["D02"]),
("cut-start-stays", "src/domain/decomposition.rs", "            start = end;\n", "", ["D02"]),
("extent-stage", "src/domain/mod.rs", ".add_startup_system_to_stage(StartupStages::AssignParticleIds, set_domain_extents_system)", ".add_startup_system_to_stage(StartupStages::Exchange, set_domain_extents_system)", ["D03"]),
("no-map-update", "src/domain/mod.rs", "        .add_startup_system_to_stage(StartupStages::TreeConstruction, update_id_entity_map_system)\n", "", ["D01"]),
("ids-before-exchange", "src/domain/mod.rs", "sim.add_startup_system_to_stage(\n            StartupStages::AssignParticleIds,\n            determine_particle_ids_system,", "sim.add_startup_system_to_stage(\n            StartupStages::Decomposition,\n            determine_particle_ids_system,", ["D01"]),
("no-despawn", "src/domain/exchange_data_plugin.rs", "commands.entity(*entity).despawn();", "let _ = (entity, &mut commands);", ["D01"]),
("zip-rev", "src/domain/exchange_data_plugin.rs", "spawned_entities.iter().zip(data.into_iter())", "spawned_entities.iter().rev().zip(data.into_iter())", ["D01"]),
("zip-skip", "src/domain/exchange_data_plugin.rs", "spawned_entities.iter().zip(data.into_iter())", "spawned_entities.iter().zip(data.into_iter().take(4))", ["D01"]),
("fill-rev", "src/domain/exchange_data_plugin.rs", "                entities\n                    .iter()\n                    .map(|entity| query.get", "                entities\n                    .iter()\n                    .rev()\n                    .map(|entity| query.get", []),
("spawned-not-local", "src/domain/exchange_data_plugin.rs", "commands.spawn(LocalParticle).id()", "commands.spawn_empty().id()", ["D01"]),
("overlap-half", "src/quadtree/radius_search.rs", "let total_size = *size1 + *size2;", "let total_size = (*size1 + *size2) * 0.25;", ["D03", "T01"]),
("overlap-half-exact", "src/quadtree/radius_search.rs", "let total_size = *size1 + *size2;", "let total_size = (*size1 + *size2) * 0.5;", ["T01"]),
("overlap-nonperiodic", "src/quadtree/radius_search.rs", "let dist = box_.periodic_distance_vec(pos1, pos2);", "let _ = box_; let dist = *pos1 - *pos2;", ["D03", "T01"]),
("overlap-z", "src/quadtree/radius_search.rs", "        && (dist.z()).abs() <= total_size.z()", "        && (dist.z()).abs() <= total_size.y()", ["D03"]),
("within-inclusive", "src/quadtree/radius_search.rs", "box_.periodic_distance(pos1, pos2) < radius", "box_.periodic_distance(pos1, pos2) <= radius", ["T01"]),
("subdivide-plus", "src/quadtree/mod.rs", "leaf.len() > config.max_num_particles_per_leaf", "leaf.len() > config.max_num_particles_per_leaf + 1", ["T01"]),
("depth-more", "src/quadtree/mod.rs", "depth < config.max_depth", "depth <= config.max_depth", ["T01"]),
("subdivide-insertnew", "src/quadtree/mod.rs", "            self.insert(config, particle, depth);\n", "            self.insert_new(config, particle, depth);\n", ["T01"]),
("leafpos", "src/quadtree/radius_search.rs", "self.current_leaf_pos = 0;\n                }", "self.current_leaf_pos = usize::from(leaf.is_some());\n                }", []),
("children", "src/quadtree/radius_search.rs", "if next_pos_in_parent < self.num_children()", "if next_pos_in_parent + 1 < self.num_children()", ["T01"]),
("quadrant", "src/domain/extent.rs", "let max_011 = Vec3Length::new(self.center.x(), self.max.y(), self.max.z());", "let max_011 = Vec3Length::new(self.center.x(), self.max.y(), self.center.z());", ["T01"]),
("wrap-trunc", "src/simulation_box.rs", "min + (v - min).rem_euclid(max - min)", "min + (v - min) % (max - min)", ["T02"]),
("wrap-nomin", "src/simulation_box.rs", "min + (v - min).rem_euclid(max - min)", "v.rem_euclid(max - min)", ["T02"]),
("minim", "src/simulation_box.rs", "} else if v < -length / 2.0 {\n        v + length", "} else if v < -length {\n        v + length", ["T02"]),
("gather-first", "src/domain/decomposition.rs", "let min_key = key_comm.all_gather_min(&local_counter.min_key()).unwrap();", "let min_key = local_counter.min_key();", ["D02"]),
]
