SPECIFICATION Spec
CONSTANT Conns <- ConnsDef
INVARIANT Safe
