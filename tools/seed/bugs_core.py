EX = "src/communication/exchange_communicator.rs"
MW = "src/communication/mpi_world.rs"
DR = "src/communication/data_by_rank.rs"
FD = "src/io/file_distribution.rs"
PH = "src/peano_hilbert.rs"
UT = "src/voronoi/math/utils.rs"
DI = "src/sweep/direction/mod.rs"
BUGS = [
    dict(id="exchange-empty-keeps-pending", property="C01", where=EX, ranks=3,
         edits=[(EX, "            received_data.insert(rank, received);\n            self.pending_data[rank] = false;",
                 "            if !received.is_empty() {\n                self.pending_data[rank] = false;\n            }\n            received_data.insert(rank, received);")],
         demo="""        let mut c: ExchangeCommunicator<i32> = ExchangeCommunicator::new();
        let me = c.rank();
        for round in 0..2 {
            let data: DataByRank<Vec<i32>> = c
                .other_ranks()
                .into_iter()
                .filter(|r| *r != 0 || round == 1)
                .map(|r| (r, vec![me * 10 + round]))
                .collect();
            let got = c.exchange_all(data);
            for (r, v) in got.iter() {
                let expected = if me == 0 && round == 0 { vec![] } else { vec![r * 10 + round] };
                assert_eq!(*v, expected);
            }
        }""",
         needs="two rounds; in the first, a rank gets an empty list from another one",
         breaks="the flag that a rank has been served in this round survives the round, so that the next round fails or leaves a rank waiting forever"),
    dict(id="exchange-waits-for-each-send", property="C01", where=EX, ranks=2,
         edits=[(EX, "            let mut guards = vec![];\n", ""),
                (EX, "                let guard =\n                    self.communicator", "                let _guard =\n                    self.communicator"),
                (EX, "                guards.extend(guard.into_iter());\n", "")],
         demo="""        let mut c: ExchangeCommunicator<i32> = ExchangeCommunicator::new();
        let me = c.rank();
        let data: Vec<i32> = (0..4000000).map(|i| i + me).collect();
        let got = c.exchange_same_for_all(&data);
        for (r, v) in got.iter() {
            assert_eq!(v.len(), 4000000);
            assert_eq!(v[17], 17 + r);
        }""",
         needs="messages too large for the MPI library to buffer, sent by two ranks to each other",
         breaks="every rank waits until its send is complete before it starts to receive, so ranks with large messages for each other wait forever"),
    dict(id="try-receive-ignores-kind", property="C02", where=MW, ranks=2,
         edits=[(MW, "process.immediate_matched_probe_with_tag(self.tag)", "process.immediate_matched_probe()")],
         demo="""        let mut a: MpiWorld<u64> = MpiWorld::new_custom_tag(7);
        let mut b: MpiWorld<u64> = MpiWorld::new_custom_tag(8);
        if a.rank() == 0 {
            a.blocking_send_vec(1, &[1, 2, 3]);
            b.blocking_send_vec(1, &[4]);
        } else {
            loop {
                if let Some(v) = b.try_receive_vec(0) {
                    assert_eq!(v, vec![4]);
                    break;
                }
            }
            assert_eq!(a.receive_vec(0), vec![1, 2, 3]);
        }""",
         uses="use super::MpiWorld;\n    use crate::communication::SizedCommunicator;",
         needs="messages of two kinds under way from the same rank while the receiver polls for the second kind",
         breaks="polling for messages of one kind returns a message of another kind"),
    dict(id="same-value-compares-with-first", property="C03", where=MW, ranks=3,
         edits=[(MW, "        for other_value in values {\n            if *value != other_value {\n                return false;\n            }\n        }\n        true\n",
                 "        values.first().map_or(true, |first| first == value)\n")],
         demo="""        let mut a: MpiWorld<u64> = MpiWorld::new();
        let v = if a.rank() == 2 { 5u64 } else { 4 };
        assert!(!a.all_ranks_have_same_value(&v));
        assert!(a.all_ranks_have_same_value(&3u64));""",
         uses="use super::MpiWorld;\n    use crate::communication::SizedCommunicator;",
         needs="some ranks agree with rank 0 and others do not",
         breaks="the test whether all ranks have the same value gives different answers on different ranks"),
    dict(id="varcount-displacement", property="C03", where=MW, ranks=3,
         edits=[(MW, "                let tmp = *acc;\n                *acc += x;\n                Some(tmp)",
                 "                *acc += x;\n                Some(*acc - counts[0])")],
         demo="""        let mut a: MpiWorld<u64> = MpiWorld::new();
        let data: Vec<u64> = (0..a.rank() as u64 + 1).collect();
        assert_eq!(a.all_gather_varcount(&data), vec![0, 0, 1, 0, 1, 2]);""",
         uses="use super::MpiWorld;\n    use crate::communication::SizedCommunicator;",
         needs="ranks that contribute different numbers of values",
         breaks="the gathered values overlap or leave gaps"),
    dict(id="chunks-of-nothing", property="C04", where=EX,
         edits=[(EX, "    comm.all_gather_max(&num_chunks).unwrap()\n", "    let num_chunks: usize = comm.all_gather_max(&num_chunks).unwrap();\n    num_chunks.max(1)\n")],
         demo="""        let empty: Vec<i32> = vec![];
        assert_eq!(divide_into_chunks_with_same_num_globally(&empty, 4).count(), 0);
        assert_eq!(divide_into_chunks_with_same_num_globally(&[1, 2, 3, 4, 5], 2).count(), 3);""",
         needs="all lists on all ranks are empty",
         breaks="an additional chunk, and hence round of communication, when there is nothing to split"),
    dict(id="chunks-of-full-size", property="C04", where=EX,
         edits=[(EX, "    (x / y) + if x.rem_euclid(y) > 0 { 1 } else { 0 }", "    if x <= y {\n        (x > 0) as usize\n    } else {\n        (x - 1) / y + (x.rem_euclid(y) > 0) as usize\n    }")],
         demo="""        let list: Vec<i32> = (0..8).collect();
        let got: Vec<i32> = divide_into_chunks_with_same_num_globally(&list, 4).flatten().copied().collect();
        assert_eq!(got, list);
        let list: Vec<i32> = (0..9).collect();
        let got: Vec<i32> = divide_into_chunks_with_same_num_globally(&list, 4).flatten().copied().collect();
        assert_eq!(got, list);""",
         needs="the longest list is a multiple (two or more) of the chunk size",
         breaks="the last chunk of a list is never sent"),
    dict(id="remove-shrinks", property="C05", where=DR,
         edits=[(DR, "        self.0[*rank as usize].take()\n",
                 "        let item = self.0[*rank as usize].take();\n        while self.0.len() > 1 && matches!(self.0.last(), Some(None)) {\n            self.0.pop();\n        }\n        item\n")],
         demo="""        let mut d: DataByRank<i32> = DataByRank::from_size_and_rank(4, 0);
        assert_eq!(d.remove(&3), Some(0));
        assert_eq!(d.get(&3), None);
        assert_eq!(d.remove(&3), None);
        assert_eq!(d.get(&2), Some(&0));""",
         needs="the entry of the highest rank is removed and this rank is looked up afterwards",
         breaks="looking up a removed entry panics"),
    dict(id="input-share-rounded", property="C06", where=FD,
         edits=[(FD, "    let num_entries_per_rank = num_entries / num_ranks;", "    let num_entries_per_rank = (num_entries + num_ranks / 2) / num_ranks;")],
         demo="""        let a = get_input_rank_assignment(&[2, 1], 5);
        let total: usize = a.iter().flat_map(|a| a.regions.iter()).map(|r| r.size()).sum();
        assert_eq!(total, 3);""",
         needs="more ranks than entries, but less than twice as many",
         breaks="the shares of the first ranks add up to more entries than there are, and reading fails"),
    dict(id="output-drops-single-entries", property="C07", where=FD,
         edits=[(FD, ".filter(|region| region.size() > 0)", ".filter(|region| region.start + 1 < region.end)")],
         demo="""        let a = get_output_rank_assignment(&[3, 3], 3);
        let total: usize = a.iter().flat_map(|a| a.regions.iter()).map(|r| r.size()).sum();
        assert_eq!(total, 6);""",
         needs="the border between files cuts off exactly one entry of a rank",
         breaks="the single entry is not written"),
    dict(id="hilbert-finest-level", property="C08", where=PH,
         edits=[(PH, "        while mask > 0 {", "        while mask > 1 {")],
         demo="""        assert_ne!(PeanoKey3d::from_integer_pos((5, 6, 7)), PeanoKey3d::from_integer_pos((5, 6, 6)));""",
         needs="two points that differ only in the last bit of their position in the finest grid",
         breaks="different cells get the same key"),
    dict(id="extent-centre", property="C10", where="src/extent.rs",
         edits=[("src/extent.rs", "let center: P = (min + max) / 2.0;", "let center: P = max - min / 2.0;")],
         demo="""        let e = Extent::from_min_max(2.0, 4.0);
        assert_eq!(e.center(), 3.0);
        assert_eq!(e.including_periodic_images().center(), 3.0);""",
         needs="a box whose minimum is not the origin", 
         breaks="the centre of the box lies outside of it"),
    dict(id="key-sent-by-half", property="C11", where=PH,
         edits=[(PH, "            &[UserDatatype::contiguous(2, &u64::equivalent_datatype())],", "            &[UserDatatype::contiguous(1, &u64::equivalent_datatype())],")],
         demo="""        use mpi::traits::Communicator;
        let world = crate::communication::MPI_UNIVERSE.world();
        let key = PeanoKey3d((7u128 << 100) + 5);
        let mut got = PeanoKey3d(0);
        let bytes = world.pack(&key);
        unsafe { world.unpack_into(&bytes, &mut got, 0) };
        assert_eq!(key, got);""",
         needs="keys above 2^64",
         breaks="the upper half of a key is lost on its way to another rank"),
    dict(id="rotation-second-row", property="C13", where=DI,
         edits=[(DI, "    vec.y = x * matrix[1][0] + y * matrix[1][1] + z * matrix[1][2];", "    vec.y = x * matrix[1][0] + z * matrix[1][1] + y * matrix[1][2];")],
         demo="""        let m = [[0.0, -1.0, 0.0], [1.0, 0.0, 0.0], [0.0, 0.0, 1.0]];
        let mut v = MVec::new(0.0, 0.0, 1.0);
        multiply_by_matrix(&mut v, &m);
        assert_eq!(v, MVec::new(0.0, 0.0, 1.0));
        let m = [[1.0, 0.0, 0.0], [0.0, 0.0, -1.0], [0.0, 1.0, 0.0]];
        let mut v = MVec::new(0.0, 1.0, 0.0);
        multiply_by_matrix(&mut v, &m);
        assert_eq!(v, MVec::new(0.0, 0.0, 1.0));""",
         needs="a vector that is not along the first axis",
         breaks="rotated directions are no longer unit vectors"),
    dict(id="rotation-other-way", property="C13", where=DI,
         edits=[(DI, "    let sin = angle.sin();", "    let sin = -angle.sin();")],
         demo="""        let m = get_rotation_matrix(MVec::new(0.0, 0.0, 1.0), std::f64::consts::FRAC_PI_2);
        let mut v = MVec::new(1.0, 0.0, 0.0);
        multiply_by_matrix(&mut v, &m);
        assert!((v - MVec::new(0.0, 1.0, 0.0)).length() < 1e-9);""",
         needs="looking at the sense of the rotation",
         breaks="rotations turn the wrong way around"),
    dict(id="lift-single-precision", property="C14", where=UT,
         edits=[(UT, "                .map(|x| PrecisionFloat::from_f64(x).unwrap()),", "                .map(|x| PrecisionFloat::from_f32(x as f32).unwrap()),")],
         demo="""        let e = 2.0f64.powi(-52);
        let m = [[1.0, 1.0, 1.0], [1.0, 1.0 + e, 1.0], [1.0, 1.0, 1.0 + e]];
        assert_eq!(determinant3x3_sign(m), Sign::Positive);""",
         needs="a nearly singular matrix, whose sign is decided by the last bits of its entries",
         breaks="the exact computation is done with rounded entries and returns the wrong sign"),
    dict(id="pivot-without-abs", property="C15", where=UT,
         edits=[(UT, "            .max_by(|i, j| a[*i][k].abs().partial_cmp(&a[*j][k].abs()).unwrap())", "            .max_by(|i, j| a[*i][k].partial_cmp(&a[*j][k]).unwrap())")],
         demo="""        let x = solve_system_of_equations([[-2.0, 1.0, 0.0, -1.0], [0.0, 2.0, 1.0, 3.0], [0.0, 1.0, 1.0, 2.0]]);
        for x in x {
            assert!((x - 1.0f64).abs() < 1e-9);
        }""",
         needs="a column whose only entries are zeros and negative numbers",
         breaks="a regular system is treated as singular"),
    dict(id="contains-ignores-generation", property="C16", where="src/voronoi/indexed_arena.rs",
         edits=[("src/voronoi/indexed_arena.rs", "        self.arena.contains(id.into())\n", "        let (slot, _) = id.into().into_raw_parts();\n        self.arena.get_unknown_gen(slot).is_some()\n")],
         demo="""        struct Id(Index);
        impl From<Index> for Id { fn from(i: Index) -> Self { Id(i) } }
        impl From<Id> for Index { fn from(i: Id) -> Self { i.0 } }
        let mut a: IndexedArena<Id, i32> = IndexedArena::default();
        let x = a.insert(1).0;
        a.remove(Id(x));
        a.insert(2);
        assert!(!a.contains(Id(x)));""",
         needs="an item is removed and its place is reused",
         breaks="a stale handle counts as valid"),
]
