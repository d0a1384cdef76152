// One traced body, written once. Every await is on one line together with AT, which notes that line.
    for (; i < (int)n->st.size(); ++i)
    {
        s = &n->st[i];
        if (s->kind == K_ASK) { AT; ASK; }
        else if (s->kind == K_ASK_HELD) { AT; ASK_HELD; }
        else if (s->kind == K_PARK) { AT; AWV(Park(s->v)); }
        else if (s->kind == K_RV && s->ty == 0) { AT; AW(child<int>(kid(n, s, 0))); }
        else if (s->kind == K_RV && s->ty == 1) { AT; AWV(child<void>(kid(n, s, 0))); }
        else if (s->kind == K_RV) { AT; AWR(child<Val&>(kid(n, s, 0))); }
        else if (s->kind == K_LV && s->ty == 0) { t = child<int>(kid(n, s, 0)); AT; AW(t); }
        else if (s->kind == K_LV && s->ty == 1) { tv = child<void>(kid(n, s, 0)); AT; AWV(tv); }
        else if (s->kind == K_LV) { tr = child<Val&>(kid(n, s, 0)); AT; AWR(tr); }
        else if (s->kind == K_READY) { t = child<int>(kid(n, s, 0)); AT; AWV(t.when_ready()); }
        else if (s->kind == K_WRAP && s->ty == 0) { AT; AWW(wrap(child<int>(kid(n, s, 0)))); }
        else if (s->kind == K_WRAP && s->ty == 1) { AT; AWW(wrap(child<void>(kid(n, s, 0)))); }
        else if (s->kind == K_WRAP) { AT; AWW((child<int>(kid(n, s, 0)) | wrap())); }
        else if (s->kind == K_TRY && s->ty == 0) { AT; TRYAW(child<int>(kid(n, s, 0))); }
        else if (s->kind == K_TRY) { AT; TRYAWV(child<void>(kid(n, s, 0))); }
        else if (s->kind == K_MAKE_TASK && s->ty == 0) { AT; AW(make_task(child<int>(kid(n, s, 0)))); }
        else if (s->kind == K_MAKE_TASK) { AT; AWV(make_task(make_task(child<void>(kid(n, s, 0))))); }
        else if (s->kind == K_EAGER) { AT; AW(eager<int>(root(s, 0))); }
        else if (s->kind == K_EAGER_LV) { te = eager<int>(root(s, 0)); AT; AW(te); }
        else if (s->kind == K_MAKE_EAGER) { AT; AW(make_eager(child<int>(root(s, 0)))); }
        else if (s->kind == K_START_ON) { AT; AW(start_on(inl, child<int>(root(s, 0)))); }
        else if (s->kind == K_PACK && s->ty == 0) { AT; AWV(when_all_ready(child<int>(kid(n, s, 0)), child<void>(kid(n, s, 1)), wrap(child<int>(kid(n, s, 2))))); }
        else if (s->kind == K_PACK && s->ty == 1) { AT; AWV(when_all_ready(child<Val&>(kid(n, s, 0)), make_task(child<void>(kid(n, s, 1))), eager<int>(root(s, 2)))); }
        else if (s->kind == K_PACK) { pk.emplace(when_all_ready(child<int>(kid(n, s, 0)), child<void>(kid(n, s, 1)))); AT; AWV(*pk); }
        else if (s->kind == K_VECTOR && s->ty == 0) { AT; AWV(when_all_ready(many<int>(n, s))); }
        else if (s->kind == K_VECTOR && s->ty == 1) { AT; AWV(when_all_ready(many<void>(n, s))); }
        else if (s->kind == K_VECTOR) { vc.emplace(when_all_ready(many<int>(n, s))); AT; AWV(std::move(*vc)); }
        else if (s->kind == K_BLOCKING) blocking(n, s);
        else if (s->kind == K_ASYNC_SCOPE) { AT; AWV(scopeUser(n, s)); }
        else if (s->kind == K_ALL_SCOPE) { AT; AWV(allScope(n, s)); }
        else if (s->kind == K_NESTED) { AT; AW(child<int>(kidOf(n, s, 0, childId(n, s)))); }
        n->line = -1;
    }
    ++n->ends;
