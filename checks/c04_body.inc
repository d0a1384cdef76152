// The body of a generated coroutine, written once. Included with AWAIT, AWAIT_SET, ... defined
// as the native keywords or as the macros, and VOID_BODY as 0 or 1.
    for (; i < (int)f->ops.size(); ++i)
    {
        op = &f->ops[i];
        ev("step", f->id, i);
        if (op->kind == 0) { AWAIT(AwI0(*op)); }
        else if (op->kind == 1) { AWAIT(AwV1(*op)); }
        else if (op->kind == 2) { AWAIT(AwV2(*op)); }
        else if (op->kind == 3) { AWAIT(AwI3(*op)); }
        else if (op->kind == 4) { AWAIT(AwV4(*op)); }
        else if (op->kind == 5) { AWAIT(AwI5(*op)); }
        else if (op->kind == 6) { AWAIT(AwV6(*op)); }
        else if (op->kind == 7) { AWAIT_SET(x, AwI1(*op)); }
        else if (op->kind == 8) { AWAIT_SET(x, AwI2(*op)); }
        else if (op->kind == 9) { AWAIT_SET(vv, AwR0(*op)); x = vv.get(); }
        else if (op->kind == 10) { AWAIT_FN(take, AwM0(*op)); }
        else if (op->kind == 11) { AWAIT_FN(take, Able<MVal>(*op)); }
        else if (op->kind == 12) { AWAIT_SET(x, s.able); }
        else if (op->kind == 13) { AWAIT_SET(x, std::move(s.able)); }
        else if (op->kind == 14) { AWAIT_SET(x, makeFree(*op)); }
        else if (op->kind == 15) { AWAIT_SET(x, Trans(*op)); }
        else if (op->kind == 16) { AWAIT_TRY(ri, Able<int>(*op)); x = look(ri); }
        else if (op->kind == 17) { AWAIT_TRY_VOID(rv, AwV1(*op)); x = look(rv); }
        else if (op->kind == 18) { AWAIT_AWAIT(Nest(*op)); }
        else if (op->kind == 19) { YIELD(op->v); }
        else if (op->kind == 20) { YIELD_SET(x, op->v + 1); }
        else if (op->kind == 21) { YIELD_AWAIT(AwI0(*op)); }
        else if (op->kind == 22) { AWAIT_SET(x, child<true>(op->child)); }
        else if (op->kind == 23) { AWAIT(child<false>(op->child)); }
        else if (op->kind == 24) { AWAIT_TRY(ri, child<true>(op->child)); x = look(ri); }
        else if (op->kind == 25) { s.hold = child<true>(op->child); AWAIT_SET(x, s.hold); }
        else if (op->kind == 26) { exk::raise(op->v % exk::n, op->v); }
        else if (op->kind == 27) { AWAIT(*held(op)); }
        else if (op->kind == 28) { AWAIT(AwFn(*op)); }
        else if (op->kind == 29)
        {
            for (x = 0; x < op->v % 4; ++x) { AWAIT(AwV1(*op)); if (op->v % 5 == 0) break; }
        }
#if VOID_BODY
        else if (op->kind == 30) { RETURN_VOID; }
#else
        else if (op->kind == 30) { RETURN(op->v); }
        else if (op->kind == 31) { RETURN_AWAIT(AwI1(*op)); }
        else if (op->kind == 32) { RETURN_YIELD(op->v); }
        else if (op->kind == 33) { RETURN_AWAIT(child<true>(op->child)); }
        else if (op->kind == 34) { RETURN_AWAIT(s.able); }
#endif
        s.cap.use(x);
        ev("value", f->id, x);
    }
    ev("end", f->id, f->end);
#if VOID_BODY
    if (f->end == 0) { RETURN_VOID; }
#else
    if (f->end == 0) { RETURN(f->endOp.v); }
    else if (f->end == 1) { RETURN_AWAIT(AwI2(f->endOp)); }
    else if (f->end == 2) { RETURN_YIELD(f->endOp.v); }
    else if (f->end == 3) { RETURN_AWAIT(child<true>(f->endOp.child)); }
    else if (f->end == 4) { RETURN(Thrower(f->endOp.v)); }
    else { RETURN(x); }
#endif
