@unit exec
@include prelude.rs
@include iter.rs
@include time.rs
@include collections.rs
@include petgraph.rs
@include execstub.rs
@defattr #[verifier::loop_isolation(false)]
@erase trace debug warn error
@typemap Graph DiGraph
@typemap Arc VxArc
@pathmap Arc::new vx_arc_new
@index subgraph vx_at
@extern get_subgraph spawn_and_wait_for_provisioner run_local_process_loop run_admin_service_forever
@effcalls get_subgraph new_ready_tracker cancel background_serve drain vx_join
@source src/execgraph.rs
@item struct Cmd
@dropfields cmdline display fd_input preamble postamble affinity
@item struct ExecGraph
@field deps DiGraph<Cmd, ()>
@field key_to_nodeid HashMap<String, NodeIndex>
@field logfile LogFile<LogFileRW>
@fn ExecGraph::execute eff panics-ok
@prop C04 C05 C06 C08 C25
@locals count_offset subgraph token servicer tracker n_failed completed n item
@ret r
@paramty provisioner Option<()>
@subst self.completed.len().try_into().unwrap() => vx_count(self.completed.len())
@subst join_all(handles).await => vx_join()
@dropstmt fn extend_graph_lifetime
@dropstmt fn transmute_lifetime
@dropstmt let mut handles
@dropstmt if let Some(provisioner)
@spec
    requires old(eff).begin()
    ensures
        // the tasks are chosen by what this session has run already
        final(eff).ask() == Some(Ask { ran: old(self).completed@, target, rerun: rerun_failures }), // [C08]
        r is Ok && final(eff).keys().len() == 0 ==> final(eff).limit() is None && r->Ok_0.0 == 0 && r->Ok_0.1@.len() == 0 && final(self).completed@ == final(eff).settled(), // [C08] [C04]
        // the scheduler gets the limit, and what it counted when nothing was left is what the caller gets
        r is Ok && final(eff).keys().len() > 0 ==> final(eff).limit() == Some(failures_allowed), // [C05]
        r is Ok && final(eff).keys().len() > 0 ==> final(eff).drained() is Some && r->Ok_0.0 == (final(eff).drained()->0).0 && listed(r->Ok_0.1@, (final(eff).drained()->0).1, final(eff).keys()), // [C04] [C06]
        // and everything that ran is not run again by this session
        r is Ok && final(eff).keys().len() > 0 ==> final(self).completed@ =~= final(eff).settled().union(names(r->Ok_0.1@)), // [C08]
        r is Ok && final(eff).keys().len() > 0 ==> final(self).logfile.flushed(), // [C25]
@letty vx_acc0 Vec<String>
@loop 0
    invariant
        vx_sq0.len() == servicer.finished_order@.len(), forall|i: int| 0 <= i < vx_sq0.len() ==> *(#[trigger] vx_sq0[i]) == servicer.finished_order@[i],
        vx_acc0@.len() == vx_it0.pos(),
        forall|i: int| 0 <= i < vx_acc0@.len() ==> (#[trigger] vx_acc0@[i])@ == eff.keys()[servicer.finished_order@[i].ix as int],
@loop 1
    invariant
        vx_sq1.len() == completed@.len(), forall|i: int| 0 <= i < vx_sq1.len() ==> *(#[trigger] vx_sq1[i]) == completed@[i],
        self.completed@ =~= eff.settled().union(names(completed@.take(vx_it1.pos() as int))),
@hint loop-end 1
    proof { lemma_names(completed@, vx_it1.pos() as int - 1); }
@hint after-loop 1
    proof { assert(completed@.take(completed@.len() as int) =~= completed@); }
