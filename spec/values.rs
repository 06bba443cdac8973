
    // ------------------------------------------------- copies and comparisons
    /// `&Any` and `&Op`
    #[verifier::external_body]
    pub struct XAny { _p: () }
    #[verifier::external_body]
    pub struct XOp { _p: () }
    pub uninterp spec fn any_val<T>(t: T) -> XAny;
    pub uninterp spec fn op_val<T>(t: T) -> XOp;
    #[verifier::external_body]
    pub fn xany<T>(t: &T) -> (r: &XAny) ensures *r == any_val(*t) { unimplemented!() }
    #[verifier::external_body]
    pub fn xop<T>(t: &T) -> (r: &XOp) ensures *r == op_val(*t) { unimplemented!() }
    impl XAny {
        /// std: the value, exactly when it has that type
        #[verifier::external_body]
        pub fn downcast_ref<T>(&self) -> (r: Option<&T>)
            ensures match r { Some(t) => *self == any_val(*t), None => forall|t: T| *self != any_val(t) }
        { unimplemented!() }
    }
    /// A call on a trait object reaches an implementation that keeps the contract of the trait
    impl ::spv::ExtInst for XInst {
        open spec fn boxed(&self) -> XInst { *self }
        uninterp spec fn held_op(&self) -> XOp;
        uninterp spec fn held(&self) -> XAny;
        #[verifier::external_body]
        fn get_op(&self) -> (r: &XOp) { unimplemented!() }
        #[verifier::external_body]
        fn as_any(&self) -> (r: &XAny) { unimplemented!() }
        #[verifier::external_body]
        fn eq(&self, other: &XInst) -> (r: bool) { unimplemented!() }
    }
    impl XInst {
        #[verifier::external_body]
        pub fn clone_box(&self) -> (r: XInst) ensures r == *self { unimplemented!() }
    }
    /// A value is determined by its type and contents, boxed or not
    pub broadcast axiom fn ax_any<T>(x: XInst, t: T)
        ensures #![trigger any_val(t), ::spv::ExtInst::held(&x)] ::spv::ExtInst::held(&x) == any_val(t) <==> x == inst_box(t);
    pub broadcast axiom fn ax_any_val<T>(a: T, b: T) ensures #![trigger any_val(a), any_val(b)] any_val(a) == any_val(b) ==> a == b;
