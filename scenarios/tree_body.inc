// Body of the interpreter coroutine; included once per frame layout.
{
  // u64 result slots live in this frame and are written by the children.
  u64 slot[MAXOP];
  lf::try_eventually<u64> te[4];
  u64 acc = mix(1, static_cast<u64>(id));
  int start = 0;
  bool open = false;        // a scope is open
  int sync_skip_join = 0;   // a sync_outside dispatch completed synchronously: no join needed
  int consumed = -1;        // index of the last op of this scope whose exception was rethrown at a dispatch

  for (int i = 0; i < P.node[id].nops; ++i) {
    Op const o = P.node[id].op[i];
    int const c = static_cast<int>(o.child);
    bool fa = o.fa;
    int err = -1;       // origin of a caught Err
    bool caught = false;
    bool subst = false; // exception_before_join

#define RETRY(...)                                                                                                     \
  for (bool again = true; again;) {                                                                                    \
    again = false;                                                                                                     \
    if (fa) sim_alloc_faults(2, 0);                                                                                    \
    try {                                                                                                              \
      __VA_ARGS__;                                                                                                     \
      if (fa) sim_alloc_faults(0, 0);                                                                                  \
    } catch (std::bad_alloc const &) {                                                                                 \
      sim_alloc_faults(0, 0);                                                                                          \
      again = true;                                                                                                    \
    }                                                                                                                  \
    if (again) {                                                                                                       \
      if (!fa) sim_fail("allocfail", "task %d: bad_alloc out of nowhere", id);                                         \
      sim_cover("dispatch_bad_alloc");                                                                                 \
      check_not_started(id, c);                                                                                        \
      can.check(id, "after bad_alloc");                                                                                \
      fa = sim_choose(2);                                                                                              \
    }                                                                                                                  \
  }

#define BY_CLASS(DISPATCH)                                                                                             \
  switch (P.node[c].cls) {                                                                                             \
    case 0: RETRY(DISPATCH(Work<0>)); break;                                                                           \
    case 1: RETRY(DISPATCH(Work<1>)); break;                                                                           \
    case 2: RETRY(DISPATCH(Work<2>)); break;                                                                           \
    case 3: RETRY(DISPATCH(Work<3>)); break;                                                                           \
    default: RETRY(DISPATCH(Work<4>)); break;                                                                          \
  }

    switch (o.k) {
      case FORK: {
        int t0 = sim_tid();
        slot[i] = 0;
#define DO(W) co_await lf::fork(&slot[i], W{})(c, Payload(c))
        BY_CLASS(DO)
#undef DO
        if (sim_tid() != t0) sim_nontrivial(), sim_cover("continuation_moved");
        open = true;
        break;
      }
      case FORKD: {
        int t0 = sim_tid();
        RETRY(co_await lf::fork(Work<0>{})(c, Payload(c)))
        if (sim_tid() != t0) sim_nontrivial(), sim_cover("continuation_moved");
        open = true;
        break;
      }
      case CALL:
        slot[i] = 0;
#define DO(W) co_await lf::call(&slot[i], W{})(c, Payload(c))
        BY_CLASS(DO)
#undef DO
        check_child_done(id, c, "call");
        open = true;
        break;
      case CALLD:
        RETRY(co_await lf::call(Work<0>{})(c, Payload(c)))
        check_child_done(id, c, "call");
        open = true;
        break;
      case FORKTRY:
        RETRY(co_await lf::fork(&te[o.arg], Work<1>{})(c, Payload(c)))
        open = true;
        break;
      case SYNC:
      case SYNCOUT: {
        bool ready = false;
        int t0 = sim_tid();
        slot[i] = 0;
        try {
          if (o.k == SYNC) {
            RETRY(ready = co_await lf::dispatch<lf::tag::fork, lf::modifier::sync>(&slot[i], Work<0>{})(c, Payload(c)))
          } else {
            RETRY(ready = co_await lf::dispatch<lf::tag::fork, lf::modifier::sync_outside>(&slot[i], Work<0>{})(c, Payload(c)))
          }
        } catch (Err const &e) {
          caught = true, err = e.origin;
        } catch (lf::exception_before_join const &) {
          caught = subst = true;
        }
        sim_cover(caught ? "sync_threw" : ready ? "sync_true" : "sync_false");
        // no explicit switching in these programs: the continuation was stolen iff another thread runs it
        bool moved = sim_tid() != t0;
        bool const sw = X->weights[RESUME] || X->weights[HANDOFF]; // then a worker may steal from itself
        if (moved) sim_nontrivial();
        if (caught) {
          if (moved && !sw) sim_fail("modifier", "task %d: sync dispatch of %d threw although it was stolen", id, c);
          u64 poss = 0;
          for (int j = start; j <= i; ++j)
            if (P.node[id].op[j].child >= 0 && P.node[id].op[j].k != FORKTRY && P.node[P.node[id].op[j].child].escapes)
              poss |= P.node[P.node[id].op[j].child].origins;
            else if (P.node[id].op[j].k == STASH)
              poss |= bit(id);
          if (poss == 0) sim_fail("modifier", "task %d: sync dispatch of %d threw, nothing failed", id, c);
          if (!subst) check_origin(id, o.k == SYNCOUT ? P.node[c].origins : poss, err, "a sync dispatch");
          if (subst && o.k == SYNCOUT) sim_fail("modifier", "task %d: sync_outside dispatch of %d substituted the exception", id, c);
          check_child_done(id, c, "a sync dispatch that threw");
          if (!subst) consumed = i;
        } else if (ready) {
          if (moved && !sw) sim_fail("modifier", "task %d: sync dispatch of %d reports true but the continuation was stolen", id, c);
          check_child_done(id, c, "a sync dispatch that returned true");
          if (P.node[c].escapes) sim_fail("modifier", "task %d: sync dispatch of failed child %d returned true", id, c);
          if (slot[i] != P.node[c].value) sim_fail("modifier", "task %d: result of synchronous child %d missing", id, c);
        } else if (!moved && !sw) {
          sim_fail("modifier", "task %d: sync dispatch of %d reports false but the continuation was not stolen", id, c);
        }
        if (o.k == SYNCOUT && (caught || ready) && !(o.arg & 2)) sync_skip_join = caught ? 2 : 1;
        open = true;
        break;
      }
      case EAGER:
        slot[i] = 0;
        try {
          RETRY(co_await lf::dispatch<lf::tag::call, lf::modifier::eager_throw>(&slot[i], Work<0>{})(c, Payload(c)))
        } catch (Err const &e) {
          caught = true, err = e.origin;
        } catch (lf::exception_before_join const &) {
          caught = subst = true;
        }
        check_child_done(id, c, "an eager call");
        if (caught) {
          sim_cover(subst ? "eager_subst" : "eager_threw");
          u64 poss = 0;
          for (int j = start; j <= i; ++j)
            if (P.node[id].op[j].child >= 0 && P.node[id].op[j].k != FORKTRY && P.node[P.node[id].op[j].child].escapes)
              poss |= P.node[P.node[id].op[j].child].origins;
            else if (P.node[id].op[j].k == STASH)
              poss |= bit(id);
          if (poss == 0) sim_fail("modifier", "task %d: eager call of %d threw, nothing failed", id, c);
          if (!subst) check_origin(id, poss, err, "an eager call"), consumed = i;
        } else {
          if (P.node[c].escapes) sim_fail("modifier", "task %d: eager call of failed child %d returned", id, c);
          if (slot[i] != P.node[c].value) sim_fail("modifier", "task %d: result of called child %d missing", id, c);
        }
        open = true;
        break;
      case EAGEROUT:
        slot[i] = 0;
        try {
          RETRY(co_await lf::dispatch<lf::tag::call, lf::modifier::eager_throw_outside>(&slot[i], Work<1>{})(c, Payload(c)))
        } catch (Err const &e) {
          caught = true, err = e.origin;
        }
        check_child_done(id, c, "an eager call");
        if (caught != P.node[c].escapes)
          sim_fail("modifier", "task %d: eager call outside a scope of %s child %d %s", id,
                   P.node[c].escapes ? "failed" : "successful", c, caught ? "threw" : "returned");
        if (caught) {
          sim_cover("eager_outside_threw");
          check_origin(id, P.node[c].origins, err, "an eager call");
          if (o.arg & 1) throw Err(err);
          acc = mix(acc, 78);
        } else {
          if (slot[i] != P.node[c].value) sim_fail("modifier", "task %d: result of called child %d missing", id, c);
          acc = mix(acc, slot[i]);
        }
        start = i + 1;
        break;
      case JUST: {
        u64 v = 0;
        try {
          if (P.node[c].cls % 2) {
            RETRY(v = co_await lf::just(Work<1>{})(c, Payload(c)))
          } else {
            RETRY(v = co_await lf::just(Work<0>{})(c, Payload(c)))
          }
        } catch (Err const &e) {
          caught = true, err = e.origin;
          if (open) self.stash_exception();
        }
        check_child_done(id, c, "just");
        if (caught != P.node[c].escapes)
          sim_fail("exception", "task %d: just[] of %s child %d %s", id, P.node[c].escapes ? "failed" : "successful", c,
                   caught ? "threw" : "returned");
        if (caught) {
          check_origin(id, P.node[c].origins, err, "just[]");
          if (!open && (o.arg & 1)) throw Err(err);
          if (!open) acc = mix(acc, 78);
        } else {
          if (v != P.node[c].value) sim_fail("result", "task %d: just[] of child %d gave a wrong value", id, c);
          acc = mix(acc, v);
        }
        break;
      }
      case CONEW: {
        size_t const n = conew_sizes[o.arg];
        u64 r = 0;
        bool threw = false;
        if (o.arg >= 4) { // failing element construction must be undone
          bool elem = false;
          try {
            arm_elem_throw(o.arg - 2);
            auto dead = co_await lf::co_new<Elem>(10);
            (void)dead;
          } catch (Err const &e) {
            elem = e.origin == 63;
          }
          if (!elem) sim_fail("conew", "task %d: exception from an element constructor was lost", id);
          sim_cover("conew_ctor_throw");
        }
        if (fa && sim_choose(2)) { // more than there can be
          bool refused = false;
          try {
            switch (sim_choose(4)) {
              case 0: {
                auto dead = co_await lf::co_new<u64>((std::size_t{1} << 61) + 1 + sim_choose(8));
                break;
              }
              case 1: {
                auto dead = co_await lf::co_new<Wide>((std::size_t{1} << 60) + sim_choose(8));
                break;
              }
              case 2: {
                auto dead = co_await lf::co_new<char>(~std::size_t{0} - sim_choose(5000));
                break;
              }
              default: {
                auto dead = co_await lf::co_new<u64>(std::size_t{1} << (45 + sim_choose(16)));
                break;
              }
            }
          } catch (std::bad_alloc const &) {
            refused = true;
          }
          if (!refused) sim_fail("allocfail", "task %d: co_new of an impossible number of elements succeeded", id);
          sim_cover("conew_too_large");
        }
        for (bool again = true; again;) {
          again = false;
          bool got = false;
          try {
            if (fa) sim_alloc_faults(2, 0);
            auto mem = co_await lf::co_new<u64>(n);
            if (fa) sim_alloc_faults(0, 0);
            got = true;
            auto sp = mem.template get<0>();
            check_span(sp, n, id);
            fill_span(sp, id);
            if (P.node[c].cls % 2) {
              co_await lf::fork(&r, Work<2>{})(c, Payload(c));
            } else {
              co_await lf::fork(&r, Work<0>{})(c, Payload(c));
            }
            test_span(sp, id, "after fork");
            try {
              co_await lf::join;
            } catch (Err const &e) {
              threw = true, err = e.origin;
            }
            test_span(sp, id, "after join");
          } catch (std::bad_alloc const &) {
            sim_alloc_faults(0, 0);
            again = true;
          }
          if (again) {
            if (!fa || got) sim_fail("allocfail", "task %d: bad_alloc out of nowhere", id);
            sim_cover("conew_bad_alloc");
            check_not_started(id, c);
            fa = sim_choose(2);
          }
        }
        check_child_done(id, c, "join inside a co_new block");
        if (threw != P.node[c].escapes) sim_fail("exception", "task %d: join in co_new block, child %d", id, c);
        if (!threw && r != P.node[c].value) sim_fail("result", "task %d: child %d of a co_new block", id, c);
        acc = mix(acc, threw ? 79 : r);
        start = i + 1;
        break;
      }
      case RESUME:
        if (!g_ctx->empty()) {
          int const to = o.arg % static_cast<int>(g_ctx->size());
          int t0 = sim_tid();
          co_await lf::resume_on((*g_ctx)[static_cast<size_t>(to)]);
          check_ctx(id, self.context(), (*g_ctx)[static_cast<size_t>(to)], to);
          if (sim_tid() != t0) sim_nontrivial(), sim_cover("switched");
        }
        break;
      case HANDOFF:
        if (!g_ctx->empty()) {
          int const to = o.arg % static_cast<int>(g_ctx->size());
          int const mode = static_cast<int>(mix(static_cast<u64>(id), static_cast<u64>(i) + 77 * o.arg) % 10);
          int const t0 = sim_tid();
          int v = 0, origin = 0;
          try {
            v = co_await HandOff{to, mode};
          } catch (Err const &e) {
            origin = e.origin;
          }
          if (origin != (mode >= 1 && mode <= 3 ? 59 + mode : 0)) sim_fail("switch", "task %d: exception of a context switcher lost or invented", id);
          if (!origin && v != 4711) sim_fail("switch", "task %d: await_resume value lost", id);
          if (mode == 1 || mode == 2 || mode == 5) {
            if (sim_tid() != t0) sim_fail("switch", "task %d: a switch that did not happen moved it", id);
          } else {
            check_ctx(id, self.context(), (*g_ctx)[static_cast<size_t>(to)], to);
            sim_cover("handed_off");
          }
        }
        break;
      case STASH:
        try {
          throw Err(id);
        } catch (Err const &) {
          self.stash_exception();
        }
        open = true;
        break;
      case THROW:
        can.check(id, "throw");
        TEST_MEM("throw");
        throw Err(id);
      case POINT:
        sim_point();
        break;
      case JOIN: {
        if (sync_skip_join == 0) {
          try {
            co_await lf::join;
          } catch (Err const &e) {
            caught = true, err = e.origin;
          }
        }
        M[id].after[i]++;
        if (M[id].after[i] != 1) sim_fail("exactly-once", "task %d: the code after join %d runs again", id, i);
        can.check(id, "join");
        TEST_MEM("join");
        arg.check(id, "join");
        u64 poss = 0, must = 0;
        for (int j = start; j < i; ++j) {
          Op const &q = P.node[id].op[j];
          if (q.k == STASH) {
            poss |= bit(id);
            if (j > consumed) must = 1;
          }
          if (q.child < 0) continue;
          int const w = static_cast<int>(q.child);
          check_child_done(id, w, "join");
          if (P.node[w].escapes && q.k != FORKTRY && !(q.k == JUST && j < start)) {
            bool injust = q.k == JUST;
            if (injust) { // stashed only if a scope was open at that point
              bool was_open = false;
              for (int z = start; z < j; ++z)
                if ((P.node[id].op[z].child >= 0 && P.node[id].op[z].k != JUST) || P.node[id].op[z].k == STASH) was_open = true;
              if (!was_open) continue;
            }
            poss |= P.node[w].origins;
            if (j > consumed) must = 1;
          }
        }
        bool any = poss != 0;
        if (sync_skip_join == 0) {
          if (caught != (must != 0))
            sim_fail("exception", "task %d: join %s, but %s", id, caught ? "threw" : "did not throw",
                     must ? "a child or the task itself had failed" : "nothing had failed since the last rethrow");
          if (caught) {
            check_origin(id, poss, err, "join");
            sim_cover("join_threw");
          }
        }
        if (any && (o.arg & 1)) {
          if (err < 0) // consumed at the dispatch
            for (int z = 0; z < 64 && err < 0; ++z)
              if (poss >> z & 1) err = z;
          throw Err(err);
        }
        if (any) acc = mix(acc, 77);
        for (int j = start; j < i; ++j) {
          Op const &q = P.node[id].op[j];
          if (q.child < 0 || q.k == JUST) continue;
          Node const &w = P.node[q.child];
          if (q.k == FORKTRY) {
            auto &t = te[q.arg];
            if (t.has_exception() != w.escapes || t.has_value() == w.escapes)
              sim_fail("exception", "task %d: result object of child %d holds the wrong kind", id, static_cast<int>(q.child));
            if (w.escapes) {
              int org = -1;
              try {
                std::rethrow_exception(std::move(t).exception());
              } catch (Err const &e) {
                org = e.origin;
              }
              check_origin(id, w.origins, org, "a result object");
              acc = mix(acc, 80);
            } else {
              if (*t != w.value) sim_fail("result", "task %d: result object of child %d", id, static_cast<int>(q.child));
              acc = mix(acc, *t);
            }
            continue;
          }
          if (q.k == FORKD || q.k == CALLD || w.escapes) continue;
          if (slot[j] != w.value)
            sim_fail("result", "task %d: slot of child %d holds %llx after join, expected %llx", id,
                     static_cast<int>(q.child), static_cast<unsigned long long>(slot[j]),
                     static_cast<unsigned long long>(w.value));
          acc = mix(acc, slot[j]);
        }
        open = false, sync_skip_join = 0, consumed = -1, start = i + 1;
        break;
      }
    }
#undef RETRY
#undef BY_CLASS
  }
  can.check(id, "end");
  TEST_MEM("end");
  arg.check(id, "end");
  co_return acc;
}
