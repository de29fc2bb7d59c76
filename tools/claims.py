SL = ("abstract interpretation of save followed by load over a symbolic heap "
      "and file store; value-number equality of every answer")
AI = ("abstract interpretation over a term domain (global value numbering) "
      "and normal-form / random-interpretation equality of ")
T = {
    "C01": (SL, ""),
    "C02": (SL, ""),
    "C03": (SL, ""),
    "C08": (AI + "inverse(forward(x)) with x, of derivatives with the linear "
            "part, and of composites with their composed stages", ""),
    "C09": (AI + "the twice-fitted and the freshly fitted object, and of the "
            "combined and the separate calls", ""),
    "C10": (AI + "unlift(lift(q)) with q, and lift_ddts() with the power "
            "rule and with the exact stencil derivative of lift()", ""),
    "C11": (AI + "the estimate at symbolic times of every polynomial up to the "
            "documented order with its derivative", ""),
    "C12": (AI + "the data matrix, the extracted operators and the solver's "
            "left- and right-hand sides with the model's residual", ""),
    "C13": (AI + "apply() with entries times datablock(), and of sums with both summands", ""),
    "C14": (AI + "jacobian() with the symbolic derivative of apply()", ""),
    "C04": (SL, ""),
    "C06": (AI + "every answer of the original and the copy; reachability "
            "(ownership) analysis of the two object graphs", ""),
    "C27": (AI + "evaluated operators and models with the coefficient-weighted sum or the interpolated entries", ""),
    "C15": (AI + "the projected operator with the projection of the full "
            "one", ""),
    "C21": (AI + 'rhs() with the sum of the operators, predictions with iterated rhs(), and the arguments handed to the integrator with the model', ""),
    "C20": (AI + "the composed object's encoding, decoding, training data and predictions with those of its components called one at a time", ""),
    "C07": (AI + 'heap snapshots before and after every analysed public call: ownership/alias analysis of arguments, returned values and stored arrays over all classes and options', ""),
    "C26": (AI + 'abstract interpretation of every basis configuration and operation sequence; entries, dimensions, energies and maps compared with the documented formulas as terms', ""),
    "C25": (AI + 'abstract interpretation of the error functions over symbolic data; returned terms compared with the documented formulas; misaligned arguments must reach a ValueError on every path', ""),
    "C18": (AI + 'abstract interpretation of every solver class, regularizer form, option and call history; solutions, residuals, condition numbers and posterior moments compared, as terms, with the documented formulas at the current settings', ""),
    "C16": (AI + 'abstract interpretation of every evaluation method on untrained, partially trained and reset objects; every path must reach the documented attribute error', ""),
    "C17": (AI + 'abstract interpretation of every setter and single-object fit with invalid arguments; on every path that raises, the whole object graph (or, failing that, every answer of the object) is compared with the one before the call', ""),
    "C28": (AI + 'abstract interpretation of every scaling rule, option and data sign pattern; learned parameters, transformed data and returned factors compared, as terms, with the documented formulas', ""),
    "C05": (SL + 'typestate analysis of file handles by abstract interpretation: every object kind is saved and loaded with every file access failing in turn (any Exception, a KeyError, a KeyboardInterrupt); on every way out every file the library opened is closed, the handle of the caller is open and an existing file is unchanged unless overwriting', ""),
    "C24": ("effect analysis of all modules' syntax trees and imports: every "
            "change of process-wide state must be undone where it is made; "
            "typestate analysis, by abstract interpretation, of the timing "
            "context manager over every way to enter and leave it", ""),
    "C19": (AI + 'the candidates fitted, the errors compared and the result of the search with a separate fit and measurement of each candidate; abstract interpretation of the searches over an uninterpreted error', ""),
    "C22": ("abstract interpretation with concrete, pairwise distinct dimensions; every path of every public operation given one mismatched size must end in the documented error", ""),
    "C29": ('abstract interpretation; ' 'user components with one broken relation each; every path of verify() must end in the documented error, none for consistent components', ""),
    "C30": ('abstract interpretation; ' 'every path of every constructor, setter and method given one value outside its documented domain must raise; values on the edge of the domain must be accepted on every path', ""),
    "C31": ('abstract interpretation; ' 'every comparison of objects built from equal data is true, and false when exactly one thing differs, in both orders', ""),
    "C32": ('abstract interpretation; ' 'the operators listed, iterated over, found by kind and stacked are, by reference, those given to the model, for all lists, orders and replacements', ""),
}
NA = {
    "C23": "whether each of about two hundred options takes the effect its docstring describes has no single static oracle; the options that shape results are judged, value by value, by the property that owns the result (C06, C12, C19-C22, C26, C28), and a mere does-the-argument-flow-somewhere rule would not decide the statement",
}
