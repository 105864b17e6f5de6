DV = "contract-based deductive verification of the compiler's MIR (own verification-condition generator, z3 and normal forms)"
BASE = ("Real arithmetic for f64 (rounding audited by concrete runs of the real code), trusted contracts for core/alloc/"
        "nalgebra/rayon/libm functions listed in the evidence; all inputs, no bound.")
CLAIMS = {
    "C01": (DV, "proof", "Type invariant of FiniteAboveNegOneF64 over IEEE doubles, bit precise (z3 floating point): every "
            "construction site in the crate's MIR, including derived and serde impls, establishes it for all bit patterns. Trusted: "
            "the standard library's f64 parsing, rkyv's unsafe access. Known finding: zerocopy's derived TryFromBytes."),
    "C10": (DV, "proof", "Views and all 27 iterator types against the abstract sequence of the table, for every table, state and "
            "argument (all methods, with the state invariants of the wrapped iterators). Trusted: slice, vec and range iterators of core."),
    "C13": (DV, "proof", "Serialize then deserialize over a model of serde's data model, bit precise for every value of every field; "
            "parameters go through the invariant gate. Trusted: the format is faithful (serde_json runs are the audit)."),
    "C02": (DV, "proof", "Every integrate/par_integrate body against the weighted-sum contract with a ghost multiset of "
            "integrand calls, for an arbitrary rule object; rounding of the mapped nodes bounded for all bounds. " + BASE),
    "C04": (DV, "proof", "Every Newton-Cotes integrate/par_integrate body against the composite formula with a ghost multiset "
            "of integrand calls; exactness degrees as lemmas over the formula; rounding of the sample points bounded for all n up to 2^32 and all bounds. " + BASE),
    "C08": (DV, "proof", "Ground obligations for all 5050 (n, k): the term the code denotes (MIR with the tables' bits) against the zero of "
            "P_n and its weight in 50 digits; exact symmetry; element j of the table is pair n - j for all n. Every table is also "
            "built by the real code and compared (exhaustive). " + BASE),
    "C09": (DV, "proof", "For all n > 100 and k: the code's term as a series in 1/(n+1/2) with coefficients analytic in theta, compared with "
            "the expansion of the exact zero derived from the differential equation (sup norm bounds); Bessel helpers under "
            "accuracy contracts; rounding bounded for all n up to 2^50. Assumed: remainder bounds of the asymptotic expansions. " + BASE),
    "C11": (DV, "proof", "new, degree and change_degree against the object's abstract state (its degree); together with the "
            "contracts of integrate (C04) and of the iterators. " + BASE),
    "C03": (DV, "proof", "par_new and par_integrate against the same contracts as new and integrate (same table term by term, "
            "same ghost multiset of integrand calls); rayon's adapters by trusted contracts. " + BASE),
    "C05": (DV, "proof", "Constructors against the closed forms for a symbolic degree and index; rounding bounded for all n up to 2^50. " + BASE),
    "C06": (DV, "proof", "golub_welsch's contract (symmetric tridiagonal matrix with the given recurrence coefficients) and the "
            "three-term recurrence coefficients and total mass of each family; by Golub-Welsch and Favard this is the Gauss rule. "
            "gamma against the gamma function on (0, 171.61] (Chebyshev bounds). Trusted: nalgebra's eigensolver. Known finding: middle node of odd asymmetric Jacobi rules. " + BASE),
    "C07": (DV, "proof", "Delegation, conversions and accessors by symbolic execution of new/From/alpha/beta for all degrees, "
            "parameters and tables (bit-exact equality of terms). " + BASE),
    "C12": (DV, "proof", "Length of the table and order by construction (sorted by total_cmp, or monotone closed forms) for every "
            "constructor; ascending order of Legendre nodes: see C08, C09. Known finding as C06. " + BASE),
    "C14": (DV, "proof", "Every overflow, division, bounds, unwrap, unreachable and panic obligation of every non-derived function of the "
            "crate (the evidence lists any function not reached), all inputs; Legendre tables by all 5050 pairs plus symbolic n > 100; "
            "parameter and serde functions bit precise. Concrete runs with overflow checks on. " + BASE),
}
NA = {}
