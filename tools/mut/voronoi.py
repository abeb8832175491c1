V="src/voronoi/"
H=V+"constructor/halo_iteration.rs"; C=V+"constructor/halo_cache.rs"; P=V+"constructor/parallel/mod.rs"; D=V+"delaunay/mod.rs"; I=V+"delaunay/impl_3d.rs"
M = [
("safety-low", H, "SEARCH_SAFETY_FACTOR: f64 = 1.001", "SEARCH_SAFETY_FACTOR: f64 = 0.93", ["V02"]),
("stop-after-one", H, "self.search_radius.unwrap() >= circumcircle.radius * SEARCH_SAFETY_FACTOR", "self.search_radius.unwrap() >= circumcircle.radius * 0.6", ["V02"]),
("points-all", H, ".any(|p| self.triangulation.point_kinds[&p] == PointKind::Inner)", ".all(|p| self.triangulation.point_kinds[&p] == PointKind::Inner)", ["V02"]),
("no-requeue", H, "                    !large_enough\n", "                    let _ = large_enough; false\n", ["V02", "V03"]),
("changed-skip", H, "for tetra in changed_tetras.iter() {", "for tetra in changed_tetras.iter().skip(1) {", ["V02"]),
("local-type", H, "if periodic_wrap_type.is_periodic() {", "if periodic_wrap_type.is_periodic() && rank > 1 {", ["V03"]),
("everyone-local", P, "total_undecided.0 == 0", "total_undecided.0 == 0 || num_undecided_this_rank == 0", ["V03"]),
("search-skip-rank", P, ".rank_owns_part_of_search_radius(rank, &extent, &self.box_)", ".rank_owns_part_of_search_radius(rank, &Extent::<Point<ActiveDimension>>::cube_around_sphere(search.point, search.radius * 0.7), &self.box_)", ["V02"]),
("local-nonperiodic", P, ".filter(|h| h.periodic_wrap_type.is_periodic()),", ".filter(|h| h.periodic_wrap_type.is_periodic() && h.id.index % 11 != 3),", ["V02"]),
("map-remote", V+"constructor/mod.rs", "ParticleType::RemotePeriodic(_) => ParticleType::Boundary,", "ParticleType::RemotePeriodic(r) => ParticleType::Remote(crate::sweep::grid::RemoteNeighbour { id: r.id, rank: r.rank }),", ["V03"]),
("size", V+"cell.rs", "(3.0 * self.volume() / (4.0 * PI)).cbrt()", "(3.0 * self.volume() / (4.0 * PI)).sqrt()", ["V02"]),
("volume-noabs", V+"cell.rs", "let height = normal.dot(p - polygon.points[0]).abs();", "let height = (p - polygon.points[0]).length();", ["V02"]),
("normal-flip", V+"cell.rs", "(p2 - p1).normalize()", "(p1 - p2).normalize()", ["V02"]),
("flip-none", D, "return self.circumcircle_contains_point(tetra, opp.point);", "return self.circumcircle_contains_point(tetra, opp.point) && self.tetras.len() % 7 != 0;", ["V01"]),
("flip-nostack", D, "stack.extend(new_tetras_to_check);", "stack.extend(new_tetras_to_check.into_iter().take(2).collect());", ["V01"]),
("connections", D, "self.tetras[tetra].find_face_mut(face).opposing = Some(connection);", "if self.tetras.len() < 40 { self.tetras[tetra].find_face_mut(face).opposing = Some(connection); }", ["V01"]),
("flip32-conn", I, "            tetra: ta,\n            point: shared_edge_p1,", "            tetra: ta,\n            point: shared_edge_p2,", ["V01"]),
("flip23-conn", I, "        self.tetras[t3].find_face_mut(f2).opposing = Some(ConnectionData {\n            tetra: t1,\n            point: shared_face.p3,", "        self.tetras[t3].find_face_mut(f2).opposing = Some(ConnectionData {\n            tetra: t1,\n            point: shared_face.p1,", ["V01"]),
("flip32-noremove", I, "        self.faces.remove(f3);\n", "", ["V01"]),
("flipped", I, "flipped: !flipped,", "flipped: flipped,", ["V01"]),
("wrapped-first", P, ".filter(|(_, p)| search.point.distance(*p) < search.radius);", ".filter(|(_, p)| search.point.distance(*p) < search.radius * 1.05);", ["V03"]),
("cache-no-wrap", C, "self.sent_previously.insert((rank, (*id, *wrap_type)))", "self.sent_previously.insert((rank, (*id, if id.index % 3 == 0 { WrapType::<D>::default() } else { *wrap_type })))", ["V02"]),
("mpi-wrap-swap", V+"constructor/parallel/mpi_types.rs", "(value.x.into(), value.y.into(), value.z.into())", "(value.x.into(), value.z.into(), value.y.into())", ["V03"]),
("mpi-radius", V+"constructor/parallel/mpi_types.rs", "point: Point3d::new(equiv.point_x, equiv.point_y, equiv.point_z),\n            radius: equiv.radius,", "point: Point3d::new(equiv.point_x, equiv.point_y, equiv.point_z),\n            radius: equiv.radius * 0.9,", ["V02"]),
("halo-irrelevant", V+"constructor/parallel/plugin.rs", "if has_local_neighbours {", "if cell.neighbours.iter().filter(|(_, type_)| type_.is_local()).count() > 1 {", ["V03"]),
("init-radius", V+"constructor/mod.rs", "ParticleType::LocalPeriodic(_) => ParticleType::Boundary,", "ParticleType::LocalPeriodic(p) => ParticleType::Local(p.id),", ["V03"]),
("poly-area", V+"primitives/polygon3d.rs", "0.5 * (r - *p1)", "0.499 * (r - *p1)", ["V02"]),
]
