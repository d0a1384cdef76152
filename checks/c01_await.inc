// Awaiting one child task in every mode, written once. AW awaits into rd, TRYAW captures the exception.
    if (s->mode == RVALUE) { AW(node<T>(c)); }
    else if (s->mode == LVALUE) { t = node<T>(c); AW(t); if (!t.is_ready()) ev("not ready after completion", c->id); }
    else if (s->mode == LVALUE_TWICE) { t = node<T>(c); AW(t); AW(t); ev("same object", c->id, rd.same()); }
    else if (s->mode == LVALUE_THEN_RVALUE) { t = node<T>(c); AW(t); AW(std::move(t)); }
    else if (s->mode == RVALUE_TWICE) { t = node<T>(c); AW(std::move(t)); AW(t); }
    else if (s->mode == AGAIN) { t = node<T>(c); TRYAW(t); AW(t); }
    else if (s->mode == MOVED) { t = node<T>(c); u = std::move(t); TRYAW(t); ev("source is ready", c->id, t.is_ready()); AW(std::move(u)); }
    else if (s->mode == READY_FIRST) { t = node<T>(c); ev("ready before", c->id, t.is_ready()); WHEN(t.when_ready()); ev("ready after", c->id, t.is_ready()); AW(std::move(t)); }
    else if (s->mode == WRAPPED) { WRAP(wrap(node<T>(c))); }
    else if (s->mode == DROPPED) { t = node<T>(c); ev("ready dropped", c->id, t.is_ready()); }
    else if (s->mode == REASSIGNED) { t = node<T>(s->other); t = node<T>(c); selfMove(t); AW(std::move(t)); }
    else if (s->mode == EMPTY) { TRYAW(std::move(t)); ev("empty is ready", c->id, t.is_ready()); }
    else { v.push_back(node<T>(s->other)); v.push_back(node<T>(c)); v.erase(v.begin()); v.resize(6); AW(v[0]); }
