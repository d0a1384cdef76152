// One free-form body, written once: AW awaits and reads, TRYAW captures.
    begin(s, j, arg);
    while (s.fuel-- > 0)
    {
        act(s);
        if (s.op == PARK) { AWV(Park(s.k)); }
        else if (s.op == AW_LAZY_L) { AW(s.lt[s.a]); }
        else if (s.op == AW_LAZY_R) { AW(std::move(s.lt[s.a])); }
        else if (s.op == AW_LAZY_MOVED) { AW(task<Val>(std::move(s.lt[s.a]))); }
        else if (s.op == TRY_LAZY_R) { TRYAW(std::move(s.lt[s.a])); }
        else if (s.op == AW_READY) { AWV(s.lt[s.a].when_ready()); }
        else if (s.op == AW_FRESH) { AW(mk<true>(s, s.k)); }
        else if (s.op == TRY_FRESH) { TRYAW(mk<true>(s, s.k)); }
        else if (s.op == AW_FRESH_EAGER) { AW(mk<false>(s, s.k)); }
        else if (s.op == AW_EAGER_L) { AW(s.et[s.a]); }
        else if (s.op == AW_EAGER_R) { AW(std::move(s.et[s.a])); }
        else if (s.op == TRY_EAGER_R) { TRYAW(std::move(s.et[s.a])); }
        else if (s.op == AW_GROUP_L) { AWG(*s.wa[s.a]); }
        else if (s.op == AW_GROUP_R) { AWG(std::move(*s.wa[s.a])); }
        else if (s.op == AW_PACK_L) { AWG(*s.wp); }
        else if (s.op == AW_PACK_R) { AWG(std::move(*s.wp)); }
        else if (s.op == AW_FROM_VECTOR) { AW(s.vt[s.a]); }
        else if (s.op == AW_WRAPPED) { AWW(wrap(std::move(s.lt[s.a]))); }
        else if (s.op == THROW) throw Boom(s.k);
        else if (s.op == STOP) break;
    }
    j->ended = true; --g_running;
