DEFAULT = ("Every accepting path of the instruction, from its dispatch entry to the return, is executed symbolically over the MIR the "
           "compiler makes from the current tree, with arbitrary account contents, keys, owners, signer flags, arguments and clock; "
           "the postconditions are decided by z3/cvc5 for all of them. Trusted: the MIR interpreter and its models of external calls "
           "(token programs, system program, sysvars, address derivation), validated by replaying a witness of the paths natively.")
LEVEL = {}
TECH = {}
NA = {}
