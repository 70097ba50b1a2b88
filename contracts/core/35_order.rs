// ordering of positions: by offset, only within one input
//@open core impl Ord for Position as=VxCmp
    open spec fn cmp_req(&self, o: &Self) -> bool { self.input == o.input }
    open spec fn cmp_spec(&self, o: &Self) -> Ordering { ord_of(self.pos as int, o.pos as int) }
//@fn vx_cmp src=cmp
//@close
