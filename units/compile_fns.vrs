//@inline map_err
impl Compiler {
//@fn l Compiler::get_schema ret=r params=_s,name props=C11,C12
//@exprmap name . to_string_lossy ( ) . to_string ( ) => name.vx_lossy()
    ensures r matches Ok(x) ==> loaded($name.p(), x.0, *x.1)
//@end
//@fn l Compiler::compile_nameclass ret=r params=_s,ctx,elem_attr,nc props=C11,C18
    requires ctx_ok(*old($ctx))
    ensures *final($ctx) == *old($ctx), match r { Ok(m) => t_ok(env_of(*old($ctx)), *$nc) && same_class(env_of(*old($ctx)), $elem_attr is Element, *$nc, m), Err(_) => !t_ok(env_of(*old($ctx)), *$nc) }
    decreases $nc
//@post
    proof { if r is Ok { class_step(env_of(*old($ctx)), $elem_attr is Element, *$nc, r->Ok_0); } }
//@end
//@fn l Compiler::compile_pattern ret=r params=_s,ctx,pattern props=C10,C11,C12,C18
//@attr #[verifier::exec_allows_no_decreases_clause]
    requires ctx_ok(*old($ctx))
    ensures *final($ctx) == *old($ctx), r matches Ok(m) ==> shows(env_of(*old($ctx)), *$pattern, mlang(m))
//@end
//@fn l Compiler::compile_element ret=r params=_s,ctx,element props=C10,C11,C18
//@attr #[verifier::exec_allows_no_decreases_clause]
    requires ctx_ok(*old($ctx))
    ensures *final($ctx) == *old($ctx), r matches Ok(m) ==> shows(env_of(*old($ctx)), types::Pattern::Element(*$element), mlang(m))
//@post
    proof { if r is Ok && r->Ok_0 is Element { same_pred(env_of(*old($ctx)), true, $element.name_class, r->Ok_0->Element_0); } }
//@end
//@fn l Compiler::compile_attribute ret=r params=_s,ctx,attribute props=C10,C11,C18
//@attr #[verifier::exec_allows_no_decreases_clause]
    requires ctx_ok(*old($ctx))
    ensures *final($ctx) == *old($ctx), r matches Ok(m) ==> shows(env_of(*old($ctx)), types::Pattern::Attribute(*$attribute), mlang(m))
//@post
    proof { if r is Ok && r->Ok_0 is Attribute { same_pred(env_of(*old($ctx)), false, $attribute.name_class, r->Ok_0->Attribute_0); } }
//@end
//@fn l Compiler::compile_list ret=r params=_s,ctx,list props=C10
//@attr #[verifier::exec_allows_no_decreases_clause]
    requires ctx_ok(*old($ctx))
    ensures *final($ctx) == *old($ctx), r matches Ok(m) ==> shows(env_of(*old($ctx)), types::Pattern::List(*$list), mlang(m))
//@end
//@fn l Compiler::compile_ref ret=r params=_s,ctx,reference props=C05,C12,C18
    requires ctx_ok(*old($ctx))
    ensures *final($ctx) == *old($ctx), r matches Ok(m) ==> shows(env_of(*old($ctx)), types::Pattern::Identifier(*$reference), mlang(m)), r is Err ==> self_of(*old($ctx)) == Some($reference.1@)
//@end
//@fn l Compiler::compile_parent ret=r params=_s,ctx,reference props=C05,C12,C18
    requires ctx_ok(*old($ctx))
    ensures *final($ctx) == *old($ctx), r matches Ok(m) ==> shows(env_of(*old($ctx)), types::Pattern::Parent(*$reference), mlang(m)), r is Err ==> ptab_of(*old($ctx)) is None
//@end
//@fn l Compiler::compile_sequence ret=r params=_s,ctx,a,b props=C10
//@attr #[verifier::exec_allows_no_decreases_clause]
    requires ctx_ok(*old($ctx))
    ensures *final($ctx) == *old($ctx), r matches Ok(m) ==> two_den(env_of(*old($ctx)), Op::Group, *$a, *$b, mlang(m))
//@post
    proof { if r is Ok { pair_lang(env_of(*old($ctx)), Op::Group, *$a, *$b, r->Ok_0); } }
//@end
//@fn l Compiler::compile_interleave ret=r params=_s,ctx,a,b props=C10
//@attr #[verifier::exec_allows_no_decreases_clause]
    requires ctx_ok(*old($ctx))
    ensures *final($ctx) == *old($ctx), r matches Ok(m) ==> two_den(env_of(*old($ctx)), Op::Interleave, *$a, *$b, mlang(m))
//@post
    proof { if r is Ok { pair_lang(env_of(*old($ctx)), Op::Interleave, *$a, *$b, r->Ok_0); } }
//@end
//@fn l Compiler::compile_choice ret=r params=_s,ctx,a,b props=C10
//@attr #[verifier::exec_allows_no_decreases_clause]
    requires ctx_ok(*old($ctx))
    ensures *final($ctx) == *old($ctx), r matches Ok(m) ==> two_den(env_of(*old($ctx)), Op::Choice, *$a, *$b, mlang(m))
//@post
    proof { if r is Ok { pair_lang(env_of(*old($ctx)), Op::Choice, *$a, *$b, r->Ok_0); } }
//@end
//@fn l Compiler::compile_datatype_value_pattern ret=r params=_s,ctx,d props=C11,C15,C18
    requires ctx_ok(*old($ctx))
    ensures *final($ctx) == *old($ctx), r matches Ok(m) ==> shows(env_of(*old($ctx)), types::Pattern::DatatypeValue(*$d), mlang(m))
//@post
    proof { if r is Ok && r->Ok_0 is DatatypeValue { assert(val_of(env_of(*old($ctx)), *$d, r->Ok_0->DatatypeValue_datatype)); } }
//@end
//@fn l Compiler::compile_datatype_name_pattern ret=r params=_s,ctx,d props=C11,C18
//@fullslice as_slice
//@attr #[verifier::exec_allows_no_decreases_clause]
    requires ctx_ok(*old($ctx))
    ensures *final($ctx) == *old($ctx), r matches Ok(m) ==> shows(env_of(*old($ctx)), types::Pattern::DatatypeName(*$d), mlang(m))
//@post
    proof { assert forall|d: datatype::Datatypes, k: DtKey, s: Seq<types::Param>| s.len() == 0 && #[trigger] dt_is(d, k, s) implies s == Seq::<types::Param>::empty() by { assert(s =~= Seq::<types::Param>::empty()); }
        if r is Ok && r->Ok_0 is DatatypeName { assert(data_of(env_of(*old($ctx)), *$d, r->Ok_0->DatatypeName_datatype)); } }
//@end
//@fn l Compiler::compile_external ret=r params=_s,ctx,x props=C11,C12,C18 loops=3
//@attr #[verifier::exec_allows_no_decreases_clause]
//@exprmap Path :: new ( ctx . file ( ) . name ( ) ) . parent ( ) . expect ( "TODO: no parent?" ) . join ( external . 0 . as_string_value ( ) ) => vx_path(&ctx.file(), external.0.as_string_value())
//@exprmap r . borrow ( ) . is_none ( ) => r.vx_is_none()
    requires ctx_ok(*old($ctx))
    ensures *final($ctx) == *old($ctx), r matches Ok(m) ==> shows(env_of(*old($ctx)), types::Pattern::External(*$x), mlang(m))
//@inline map=opt_map map_err ok_or
//@aftercall new_include
    let ghost c0 = $let; let ghost e0 = env_of(c0); let ghost b0 = inherits(env_of(*old($ctx)), e0, $x.1); proof { ov_naming(c0, Set::empty()); ov_sealed(c0); reveal_with_fuel(route, 2); }
//@aftercall new_grammar
    let ghost g0 = $let; proof { assert(tagt(tab_of(g0))); }
//@loop 0 for:it
    invariant
        it.seq().map(|i: int, x: &types::Decl| *x) =~= s.decls@, *$ctx == *old($ctx), kept(c0, inc_ctx), c0 is Include, ctx_ok(inc_ctx), top(inc_ctx),
        b0 == inherits(env_of(*old($ctx)), e0, $x.1), inherited@ == b0.dns, decs_n(b0, s.decls@, it.index@ as nat), env_of(inc_ctx) == decs_env(b0, s.decls@, it.index@ as nat)
//@loopbegin 0
    proof { let w = it.seq().map(|i: int, x: &types::Decl| *x); assert(w[it.index@ as int] == s.decls@[it.index@ as int]); assert(w[it.index@ as int] == *dec); }
//@loop 1 for:it
    invariant
        it.seq().map(|i: int, x: &types::GrammarContent| *x) =~= content@, *$ctx == *old($ctx), child_ctx == g0, g0 is Grammar, ctx_ok(g0),
        slice_contents(env_of(g0), content@, it.index@ as nat)
//@loopbegin 1
    proof { let w = it.seq().map(|i: int, x: &types::GrammarContent| *x); assert(w[it.index@ as int] == content@[it.index@ as int]); assert(w[it.index@ as int] == *g); }
//@loop 2 for:it
    invariant *$ctx == *old($ctx), child_ctx == g0, g0 is Grammar, ctx_ok(g0)
//@post
    proof {
        let e = env_of(*old($ctx)); let pth = path_of(e.file.nm(), lit($x.0));
        assert forall|e: Env, t: int, v: Vec<types::GrammarContent>| #![trigger tagt(t), slice_contents(e_gram(e, t), v@, v@.len())] slice_contents(e_gram(e, t), v@, v@.len()) implies contents(e_gram(e, t), v, v@.len()) by { slice_is(e_gram(e, t), v, v@.len()); }
        if r is Ok {
            let l = mlang(r->Ok_0);
            assert(tag(l));
            assert forall|f: VxFile, s: Schema, ov: int| #![trigger parsed(f, s), tagt(ov)] ext_body(e, *$x, l, f, s, ov) implies ext_den(e, *$x, l) by { ext_intro(e, *$x, l, f, s, ov); }
        }
    }
//@end
//@fn l Compiler::compile_grammar_pattern ret=r params=_s,ctx,g props=C12,C18
//@attr #[verifier::exec_allows_no_decreases_clause]
//@fullslice as_slice
//@inline map=opt_map ok_or_else
    requires ctx_ok(*old($ctx))
    ensures *final($ctx) == *old($ctx), r matches Ok(m) ==> shows(env_of(*old($ctx)), types::Pattern::Grammar(*$g), mlang(m))
//@post
    proof {
        let e = env_of(*old($ctx));
        assert forall|t: int| #[trigger] tagt(t) && slice_contents(e_gram(e, t), $g.content@, $g.content@.len()) implies contents(e_gram(e, t), $g.content, $g.content@.len()) by { slice_is(e_gram(e, t), $g.content, $g.content@.len()); }
    }
//@end
//@fn l Compiler::compile_grammar_contents ret=r params=_s,child,content props=C12
//@attr #[verifier::exec_allows_no_decreases_clause]
    requires ctx_ok(*old($child)), can_hold(*old($child)), ready(route(*old($child)))
    ensures *final($child) == *old($child), r is Ok ==> slice_contents(env_of(*old($child)), $content@, $content@.len())
//@loop 0 for:it
    invariant
        it.seq().map(|i: int, x: &types::GrammarContent| *x) =~= $content@, *$child == *old($child), ctx_ok(*$child), can_hold(*$child), ready(route(*$child)),
        slice_contents(env_of(*$child), $content@, it.index@ as nat)
//@loopbegin 0
    proof { let w = it.seq().map(|i: int, x: &types::GrammarContent| *x); assert(w[it.index@ as int] == $content@[it.index@ as int]); assert(w[it.index@ as int] == *g); }
//@end
//@fn l Compiler::compile_grammar_content_item ret=r params=_s,child,g props=C12
//@attr #[verifier::exec_allows_no_decreases_clause]
//@fullslice as_slice
    requires ctx_ok(*old($child)), can_hold(*old($child)), ready(route(*old($child)))
    ensures *final($child) == *old($child), r is Ok ==> item(env_of(*old($child)), *$g)
//@post
    proof { if let types::GrammarContent::Div(v) = $g { if slice_contents(env_of(*old($child)), v@, v@.len()) { slice_is(env_of(*old($child)), *v, v@.len()); } } }
//@end
//@fn l Compiler::compile_grammar_div ret=r params=_s,ctx,div props=C12
//@attr #[verifier::exec_allows_no_decreases_clause]
    requires ctx_ok(*old($ctx)), can_hold(*old($ctx)), ready(route(*old($ctx)))
    ensures *final($ctx) == *old($ctx), r is Ok ==> slice_contents(env_of(*old($ctx)), $div@, $div@.len())
//@loop 0 for:it
    invariant
        it.seq().map(|i: int, x: &types::GrammarContent| *x) =~= $div@, *$ctx == *old($ctx), ctx_ok(*$ctx), can_hold(*$ctx), ready(route(*$ctx)),
        slice_contents(env_of(*$ctx), $div@, it.index@ as nat)
//@loopbegin 0
    proof { let w = it.seq().map(|i: int, x: &types::GrammarContent| *x); assert(w[it.index@ as int] == $div@[it.index@ as int]); assert(w[it.index@ as int] == *item); }
//@end
//@fn l Compiler::compile_define ret=r params=_s,ctx,d props=C05,C09,C12
//@attr #[verifier::exec_allows_no_decreases_clause]
    requires ctx_ok(*old($ctx)), can_define(*old($ctx)), ready(route(*old($ctx))), own_of(*old($ctx)) matches Some(ov) ==> ov_set(ov).contains($d.1.1@)
    ensures *final($ctx) == *old($ctx), r is Ok ==> def_item(env_of(*old($ctx)), *$d)
//@post
    proof { assert forall|p: Pattern| nary(p) is Some && nary(p).unwrap().1.len() == 1 implies #[trigger] mlang(p) == mlang(nary(p).unwrap().1[0]) by { one_lang(p); } }
//@end
//@fn l Compiler::namespace_uri ret=r params=inherited,uri props=C11
    ensures r@ == dec_uri($inherited@, *$uri)
//@end
//@fn l Compiler::inherited_namespace ret=r params=ctx,h props=C11,C18
    requires ctx_ok(*$ctx)
    ensures match r { Ok(u) => nss(*$ctx).contains_key($h.0.shown()) && u@ == nss(*$ctx)[$h.0.shown()], Err(x) => !nss(*$ctx).contains_key($h.0.shown()) && (x matches RelaxError::UndefinedNamespacePrefix { prefix, .. } && prefix@ == $h.0.shown()) }
//@end
//@fn l Compiler::compile_declaration ret=r params=_s,ctx,inherited,dec props=C11,C18
    requires ctx_ok(*old($ctx)), top(*old($ctx))
    ensures kept(*old($ctx), *final($ctx)), ctx_ok(*final($ctx)), top(*final($ctx)), can_hold(*final($ctx)) == can_hold(*old($ctx)),
        r is Ok <==> dec_ok(env_of(*old($ctx)), *$dec), r is Ok ==> env_of(*final($ctx)) == dec_env(env_of(*old($ctx)), $inherited@, *$dec) && tab_of(*final($ctx)) == tab_of(*old($ctx))
//@end
//@fn l Compiler::compile_include_content ret=r params=_s,ctx,content props=C12
//@attr #[verifier::exec_allows_no_decreases_clause]
//@fullslice as_slice
    requires ctx_ok(*old($ctx)), can_define(*old($ctx)), ready(route(*old($ctx))), ov_named(env_of(*old($ctx)), $content@), own_of(*old($ctx)) is Some
    ensures *final($ctx) == *old($ctx), r is Ok ==> ov_slice(env_of(*old($ctx)), $content@, $content@.len())
//@loop 0 for:it
    invariant
        it.seq().map(|i: int, x: &types::IncludeContent| *x) =~= $content@, *$ctx == *old($ctx), ctx_ok(*$ctx), can_define(*$ctx), ready(route(*$ctx)), ov_named(env_of(*$ctx), $content@), own_of(*$ctx) is Some,
        ov_slice(env_of(*$ctx), $content@, it.index@ as nat)
//@loopbegin 0
    proof {
        let w = it.seq().map(|i: int, x: &types::IncludeContent| *x); let n = it.index@ as int; let e = env_of(*$ctx); assert(w[n] == $content@[n]); assert(w[n] == *item);
        match $content@[n] {
            types::IncludeContent::Define(d) => { assert(ov_inames($content@[n]).contains(d.1.1@)); }
            types::IncludeContent::Div(v) => {
                assert forall|k: Str| #[trigger] ov_names(v, v@.len()).contains(k) implies (e.own matches Some(ov) && ov_set(ov).contains(k)) by { assert(ov_inames($content@[n]).contains(k)); }
                ov_all(e, v);
                if ov_slice(e, v@, v@.len()) { ov_is(e, v, v@.len()); }
            }
            _ => {}
        }
    }
//@end
//@fn l Compiler::compile_include ret=r params=_s,ctx,i props=C11,C12,C18
//@attr #[verifier::exec_allows_no_decreases_clause]
//@exprmap Path :: new ( ctx . file ( ) . name ( ) ) . parent ( ) . expect ( "TODO: no parent?" ) . join ( inc . 0 . as_string_value ( ) ) => vx_path(&ctx.file(), inc.0.as_string_value())
//@fullslice as_slice
//@exprmap overrides . borrow ( ) . iter ( ) => overrides.vx_entries()
//@inline map_err ok_or_else
    requires ctx_ok(*old($ctx)), can_hold(*old($ctx)), ready(route(*old($ctx)))
    ensures *final($ctx) == *old($ctx), r is Ok ==> inc_den(env_of(*old($ctx)), *$i)
//@aftercall new_include
    let ghost c0 = $let; let ghost e0 = env_of(c0); proof { ov_naming(c0, inc_names(*$i)); reveal_with_fuel(route, 2); }
//@aftercall new_inc_overrides
    let ghost o0 = $let; proof {
        reveal_with_fuel(route, 3); reveal_with_fuel(ctx_ok, 4); let v = $i.2->0; let e = env_of(o0);
        assert(e == e_ovr(env_of(*old($ctx)), own_of(o0)->0));
        ov_all(e, v); if ov_slice(e, v@, v@.len()) { ov_is(e, v, v@.len()); }
    }
//@beforecall compile_schema
    proof {
        assert forall|k: Str| #[trigger] ov_set(inc_ctx->Include_overrides.id()).contains(k) implies flagged(inc_ctx->Include_overrides.id(), k, false) by { ov_flags(e_ovr(env_of(*old($ctx)), inc_ctx->Include_overrides.id()), $i.2->0, ($i.2->0)@.len(), k); }
        ov_sealed(inc_ctx);
    }
//@loop 0 for:it
    invariant *$ctx == *old($ctx), entries_of(overrides.id(), it.seq()), forall|i: int| 0 <= i < it.index@ ==> (#[trigger] it.seq()[i]).1.1
//@post
    proof {
        let e = env_of(*old($ctx));
        if r is Ok { assert forall|f: VxFile, s: Schema, ov: int| #![trigger parsed(f, s), tagt(ov)] inc_body(e, *$i, f, s, ov) implies inc_den(e, *$i) by { inc_intro(e, *$i, f, s, ov); } }
    }
//@end
//@fn l Compiler::compile_schema ret=r params=_s,ctx,schema props=C11,C12,C18
//@attr #[verifier::exec_allows_no_decreases_clause]
//@fullslice as_slice
    requires ctx_ok(*old($ctx)), top(*old($ctx)), can_hold(*old($ctx)), ready(route(*old($ctx)))
    ensures kept(*old($ctx), *final($ctx)), r is Ok ==> tab_of(*final($ctx)) == tab_of(*old($ctx)) && decs_ok(env_of(*old($ctx)), $schema.decls@) && (if *old($ctx) is Include { as_grammar(file_env(env_of(*old($ctx)), *$schema), *$schema) } else { as_schema(file_env(env_of(*old($ctx)), *$schema), *$schema) })
//@loop 0 for:it
    invariant
        it.seq().map(|i: int, x: &types::Decl| *x) =~= $schema.decls@, inherited@ == dns(*old($ctx)), kept(*old($ctx), *$ctx), tab_of(*$ctx) == tab_of(*old($ctx)), ctx_ok(*$ctx), top(*$ctx), can_hold(*$ctx), ready(route(*$ctx)),
        decs_n(env_of(*old($ctx)), $schema.decls@, it.index@ as nat), env_of(*$ctx) == decs_env(env_of(*old($ctx)), $schema.decls@, it.index@ as nat)
//@loopbegin 0
    proof { let w = it.seq().map(|i: int, x: &types::Decl| *x); assert(w[it.index@ as int] == $schema.decls@[it.index@ as int]); assert(w[it.index@ as int] == *dec); }
//@post
    proof { assert forall|e: Env, v: Vec<types::GrammarContent>| #[trigger] slice_contents(e, v@, v@.len()) implies contents(e, v, v@.len()) by { slice_is(e, v, v@.len()); } }
//@end
//@fn l Compiler::compile ret=r params=_s,name props=C05,C11,C12,C18
//@attr #[verifier::exec_allows_no_decreases_clause]
    ensures r matches Ok(c) ==> compiled($name.p(), c.ptr())
//@beforecall compile_schema
    let ghost c0 = ctx; proof { assert(env_of(c0).route =~= seq![]); assert(env_of(c0) == root_env(c0->Root_file, tab_of(c0))); assert(tagt(tab_of(c0))); }
//@loop 0 for:it
    invariant tab_of(ctx) == tab_of(c0), ctx is Root, ctx_ok(ctx), refs_of(tab_of(c0), it.seq()), forall|i: int| 0 <= i < it.index@ ==> defined((#[trigger] it.seq()[i]).1.ptr())
//@post
    proof { assert forall|p: Pattern, s: Set<usize>| #[trigger] covers(p, s) && (forall|x: usize| #[trigger] s.contains(x) ==> good(x, s)) implies !bad_reach(p) by { all_good(p, s); } }
//@end
}
