"""Writes properties.jsonl (one source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                          mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=observe, hook_needed=None))
    assert len(title) <= 80, title
    P.append(d)

TY, SEM, SYN = "effectful/ops/types.py", "effectful/ops/semantics.py", "effectful/ops/syntax.py"
RT = "effectful/internals/runtime.py"

p("C01", "Handlers are active exactly inside their scope and always restored",
  "Installing an interpretation changes how operations behave only between entry and exit of its scope, innermost installation first, and on exit - normal, by exception, by early return, from a decorated function or from a generator-free nested scope - the behaviour of every operation is exactly what it was on entry. An interpretation is captured when it is installed: later mutation of the mapping object that was passed in does not change the running program, and installing never mutates the mapping passed in. Installing through the exclusive form (interpreter) hides all outer handlers; the composing form (handler) keeps those of other operations.",
  ["programs", "histories", "fault_sequences"],
  "every well-nested program of scope entries, exits, calls and raised exceptions over every set of operations",
  "The tests try a few fixed nestings; restoration must hold on every exit path of every nesting.",
  [RT, SEM], [("interpreter saves and restores the interpretation in try/finally", RT), ("handler = interpreter of a coproduct", SEM)],
  ["calls of operations and the values they return", "get_interpretation"],
  [("interpretation", "the currently installed mapping of operations to handlers", RT)])

p("C02", "Forwarding walks outward through the handlers, to the default, exactly",
  "When handlers for an operation are composed or nested, calling the operation runs the innermost one; each forward inside it runs the next outer one in installation order and past the last one the operation's default behaviour, with the forwarded arguments, or with the arguments of the handler that forwards when none are given. Forwarding may happen any number of times (none, once, several) and may be interleaved with calls to other handled operations without losing its place, also when a handler calls its own operation again. Composition of interpretations is associative and the empty interpretation is its identity, as observed through any program.",
  ["programs", "histories"],
  "every stack and composition of handler behaviours over every call sequence, compared with a reference interpreter",
  "Tests fix a handful of two- or three-deep stacks; the bookkeeping of continuations and arguments interacts across nesting, re-entrancy and composition.",
  [SEM, RT], [("coproduct re-targets forward to the next handler", SEM), ("argument save and restore for argument-less forward", RT)],
  ["ordered trace of handler invocations with their arguments", "returned values"])

p("C03", "Handlers installed in one thread never affect another thread",
  "Each thread runs under its own interpretation: a handler installed, composed, removed or unwound by an exception in one thread is never observed by an operation called in another thread, whatever the interleaving, and a new thread starts with no handlers. Definitions of operations are shared and usable concurrently: every call in every thread returns what that thread would have computed alone.",
  ["schedules"], "every interleaving of handler entry, operation calls and handler exit in several threads",
  "No existing test runs two threads that interleave inside handler scopes.",
  [RT], [("thread-local runtime state", RT)], ["values returned by operations in each thread"],
  [("Runtime", "per-thread holder of the interpretation", RT)])

p("C04", "Evaluating a deferred expression equals computing it eagerly",
  "For every expression built from operations, evaluating the deferred expression under an interpretation gives the result of performing the same calls directly under that interpretation, evaluating arguments before the operation and each occurrence exactly once, left to right. Evaluation reaches expressions nested in tuples, named tuples, lists, dictionaries, ordered and default dictionaries, counters, read-only mappings and dataclasses, at any depth and in keyword arguments, preserves the container's type, order and the other elements, and leaves data without expressions equal to itself. Evaluation never modifies its argument, and with no handlers it returns an expression equal to the original.",
  ["programs", "inputs"], "every expression and container nesting, under every interpretation",
  "Tests check a few containers with one variable; the traversal is a hand-written dispatch over many container kinds.",
  [SEM, SYN], [("evaluate dispatch over terms and containers", SEM), ("default rule building terms", SYN)],
  ["ordered trace of handler calls", "result value and its types"])

p("C05", "Bound variables are hygienic and free variables are computed exactly",
  "The free variables reported for an expression are exactly the operations applied in it outside the scope of a construct that binds them; every binding construct (functions, traced functions, streams, user-defined binders) renames its bound variable to a fresh one, so the variable the caller used stays usable and is never captured. Substituting for free variables, by handling them, never captures: applying or evaluating a function equals capture-avoiding substitution followed by evaluation, for nested, shadowed and shared variables and for arguments that mention variables of the same name.",
  ["programs", "inputs"], "every lambda term, with shadowing, reuse of binders and open arguments, compared with a reference calculus using explicit indices",
  "Tests use fixed terms of depth two or three; capture shows only for particular sharing of variables between scopes.",
  [SYN, SEM, "docs/source/lambda_.py"], [("Scoped annotation rule computes bound variables", SYN), ("renaming when a term is built", SYN)],
  ["fvsof", "result of applying functions", "syntactic equality up to renaming"])

p("C06", "Product interpretations run their components without interference",
  "Running an expression under a product of named interpretations gives, for each name, exactly the result of running it under that interpretation alone; each component sees only its own values as arguments, in the right positions and inside containers. An operation handled by at least one component and not by others still gives each component its own result, and a component's handler may read another component's arguments by name without changing any result or evaluating anything twice.",
  ["programs", "configurations"], "every expression and every pair or triple of interpretations, including partly overlapping ones",
  "Tests combine two or three fixed interpretations.",
  ["effectful/internals/product_n.py"], [("per-prompt argument projection and re-packing", "effectful/internals/product_n.py")],
  ["results per component", "trace of handler calls per component"])

p("C07", "The inferred type of an expression is sound",
  "The type computed for a deferred expression is a supertype of the type of the value the expression evaluates to whenever every operation returns values of its declared return type; type variables in a signature are resolved from the actual arguments, including through nested generic containers, functions, variadic, keyword and default arguments. Binder operations, functions and streams get the type their body dictates, and the class of the deferred expression always offers the interface the library provides for that type (numbers, callables, iterables, dataclasses).",
  ["programs", "inputs"], "every signature built from type variables and generic containers, and every well-typed argument tuple",
  "Tests enumerate some signatures; unification has many interacting cases.",
  [SEM, "effectful/internals/unification.py", TY], [("typeof through the type rule of each operation", SEM), ("signature unification", "effectful/internals/unification.py")],
  ["typeof", "class of the built term"])

p("C08", "Unification finds a substitution exactly when the types match",
  "Matching a generic pattern against a type either returns a substitution whose application to the pattern accepts the matched type (type arguments read covariantly, up to the library's canonical forms, e.g. a variadic tuple as a sequence), or raises a type error. It succeeds whenever the matched type is an instance of the pattern, and the substitution then gives back that instance, except for patterns with a union that more than one of its alternatives could match; it fails when no substitution can match. Renaming type variables never changes the outcome, matching a type against itself always succeeds, and applying a substitution touches exactly the variables it mentions.",
  ["inputs"], "every pair of types from the supported grammar: type variables, nested generics, tuples, unions, callables, literals, typed dictionaries and annotated types",
  "Tests list about a hundred pairs; the relation is over all pairs.",
  ["effectful/internals/unification.py"], [("unify, substitute, freetypevars and canonicalize", "effectful/internals/unification.py")],
  ["returned substitution", "TypeError"])

p("C09", "Structural equality of expressions is an equivalence that respects meaning",
  "Structural equality is reflexive, symmetric and transitive, is decided by operations, arguments, keyword arguments, container structure and leaf values only (not by which sequence or mapping type is used, nor by the order of keys), and distinguishes expressions that differ in any of them at any depth, including operand order, argument count and container length. The answer is always a truth value. It runs no handler and no default behaviour of any operation, and expressions that are structurally equal evaluate to structurally equal values under every interpretation whose handlers treat such arguments alike.",
  ["inputs", "configurations"], "every pair of expressions up to the generated depth, including single-point mutations of each other, with arbitrary interpretations installed",
  "Tests compare a few pairs.",
  [SYN], [("syntactic_eq dispatch", SYN)], ["syntactic_eq", "trace of handler calls while comparing"])

p("C10", "Operations have their own identity and dispatch by instance and class",
  "Two separately defined operations are always different, hash consistently and never answer for each other, even when made from the same function or given the same name, and defining a new operation from an existing one keeps its signature but none of its behaviour. A method operation accessed through an instance is one stable operation per instance: handling it on one object affects calls on that object only, while handling it on the class affects every instance that has no handler of its own, including instances of subclasses that inherit it; class, static and single-dispatch methods are found and dispatched as Python does for ordinary methods.",
  ["programs", "configurations"], "every class hierarchy with method operations, every set of instances and every subset of handled operations",
  "Tests check one or two instances with fixed handlers.",
  [TY], [("instance operations cached per instance fall back to the class operation", TY)], ["values returned by method calls"])

p("C11", "Handler objects expose exactly their implementations, with inheritance and state",
  "An object that implements operations with methods behaves, when installed, as the mapping from each operation to the bound method of that very object: iteration, length, membership and lookup agree; subclasses inherit, override and add implementations by operation, following method resolution order, and never alter their parents. State kept on the object is per object, and methods may call other methods, forward, and be composed with any other interpretation.",
  ["programs", "configurations"], "every class hierarchy up to the generated size and every assignment of operations to methods",
  "Tests use single-level inheritance with one or two operations.",
  [SYN], [("implements registers a method; class creation collects implementations", SYN)], ["mapping protocol of the object", "values returned by operations"])

p("C12", "Deferred arithmetic agrees with Python arithmetic",
  "For every numeric expression over deferred and concrete integers, rationals, floats and complex numbers, with operands on either side, evaluating the deferred expression gives the value and type that Python gives for the same expression on the concrete values, and raises an exception exactly when Python does; this covers arithmetic, comparison, rounding, shifting and bitwise operators. Building the expression never evaluates it and never changes the operand order (a comparison may be stored as its mirror image, as Python reflects it).",
  ["programs", "inputs"], "every expression over the operators and numeric types, and every value",
  "Tests check that terms are built, for a few operators.",
  [SYN], [("operator methods of numeric terms and their reflected forms", SYN)], ["value, type and exception of the evaluated expression"])

p("C13", "Printed expressions never confuse two different variables",
  "In the text of a deferred expression, two different operations never get the same printed name and one operation never gets two, whatever their names, nesting or number; two expressions built in the same way print identically, and printing changes nothing.",
  ["inputs"], "every expression over operations with equal or colliding names",
  "Tests print a few fixed terms.",
  [TY], [("per-term disambiguation of operation names", TY)], ["str and repr of the term"])

p("C14", "Named tensor dimensions act as independent per-index computations (PyTorch)",
  "A tensor with named dimensions stands for a family of tensors, one per index assignment: any sequence of pointwise, reducing, indexing, reshaping and broadcasting tensor operations on such tensors equals, for every index assignment, the same operations on the individual tensors; named dimensions of operands are matched by identity, never by position. Turning named dimensions into positional ones, in any order, and back is lossless, the reported names and sizes are exact, conflicting sizes and a name given twice are rejected, not silently mixed, and a name the tensor lacks never changes it.",
  ["programs", "inputs"], "every program over the supported operations, every shape, every set and order of named dimensions",
  "Tests fix shapes and mostly one or two names; batching rules interact with positional dimensions.",
  ["effectful/handlers/torch.py", "effectful/internals/tensor_utils.py"], [("batched evaluation of torch functions over named dimensions", "effectful/handlers/torch.py"), ("bind_dims, unbind_dims, sizesof", "effectful/handlers/torch.py")],
  ["value, shape and named sizes of the result against a loop over all indices"])

p("C15", "Function transforms agree with PyTorch's on named and plain tensors",
  "Gradient, Jacobian (both modes), Hessian and vectorising-map transforms return what the plain PyTorch transform returns for the same function and arguments, positional or keyword, and on functions or arguments with named dimensions they return, for every index assignment, the plain result at that assignment. Options such as argument selection and auxiliary outputs are honoured.",
  ["programs", "inputs"], "every differentiable function from the generator, every option set, every assignment of named dimensions",
  "Tests cover one function per transform.",
  ["effectful/handlers/torch.py"], [("transform wrappers that convert terms to tensors and back", "effectful/handlers/torch.py")],
  ["returned tensors against plain torch.func per index"])

p("C16", "Named array dimensions act as independent per-index computations (JAX)",
  "An array with named dimensions stands for a family of arrays, one per index assignment: any sequence of pointwise, reducing, indexing, linear-algebra and special functions from the wrapped library on such arrays equals, for every index assignment, the same functions on the individual arrays, also under compilation and vectorisation. Binding and unbinding names is lossless in any order, reported names and sizes are exact and conflicting sizes are rejected.",
  ["programs", "inputs"], "every program over the wrapped functions, every shape and set of named dimensions",
  "Tests fix shapes, mostly with one name.",
  ["effectful/handlers/jax/_handlers.py", "effectful/handlers/jax/_terms.py", "effectful/handlers/jax/numpy/__init__.py"], [("batched evaluation over named dimensions", "effectful/handlers/jax/_handlers.py"), ("array operator methods", "effectful/handlers/jax/_terms.py")],
  ["value, shape and named sizes of the result against a loop over all indices"])

p("C17", "Index sets, gathering, masking and stacking follow set and selection algebra",
  "Index sets behave as finite maps from names to sets of positions: union is commutative, associative, idempotent and contains its operands, and operations and tensors report exactly the names and positions they range over. Gathering a named tensor at an index set yields exactly the selected entries; conditional selection picks the first or second operand independently at every named and positional index; stacking and multi-way selection put each operand at exactly its own index.",
  ["inputs"], "every index set, value and named-dimension layout from the generator",
  "The corresponding tests are not part of the stable suite and fix shapes.",
  ["effectful/handlers/indexed.py"], [("IndexSet, union, indices_of, gather, stack, cond, cond_n", "effectful/handlers/indexed.py")],
  ["index sets, result values against direct selection"])

p("C18", "Pyro programs mean the same with named dimensions and through the bridge",
  "A model that samples through the library's sampling operation has the same sites, values, shapes and joint log density as the same model written directly in Pyro, including observed, masked, scaled, replayed and conditioned sites. Distributions with named dimensions agree with the batch of plain distributions: log density, samples, means, supports and shapes match at every index assignment for every supported distribution family, and binding and unbinding names is lossless.",
  ["programs", "inputs", "configurations"], "every model and every supported distribution family with every layout of named batch dimensions",
  "Embedding tests are not part of the stable suite; shapes depend on families, event dimensions and plates together.",
  ["effectful/handlers/pyro.py"], [("PyroShim and site naming", "effectful/handlers/pyro.py"), ("positional embedding of each distribution family", "effectful/handlers/pyro.py")],
  ["Pyro trace sites, log densities"])

p("C19", "NumPyro distributions with named dimensions equal the batch of plain ones",
  "For every supported distribution family, constructing the distribution with arguments that carry named dimensions and then asking for log density, mean, variance, shapes, support, expansion or a batched positional form gives at every index assignment what the plain distribution with that index's parameters gives. Parameters keep their roles and defaults, and binding and unbinding names is lossless.",
  ["inputs", "configurations"], "every supported distribution family, parameter values and named layouts",
  "The corresponding test file is not part of the stable suite.",
  ["effectful/handlers/numpyro.py"], [("distribution operations and terms per family", "effectful/handlers/numpyro.py")],
  ["log densities, moments and shapes against plain numpyro per index"])

p("C20", "Values survive the encoding used to talk to a language model",
  "For every supported type and every value of it, encoding the value and decoding the result gives back an equal value of the same type, the encoding conforms to the schema advertised for the type, and decoding data outside the schema fails instead of producing a wrong value. The content blocks sent for a value contain its serialised text and images in order, with adjacent text merged and nothing lost, duplicated or reordered, at any nesting.",
  ["inputs"], "every value of every type from the supported grammar, nested",
  "The encoding test file is not part of the stable suite.",
  ["effectful/handlers/llm/encoding.py"], [("type-directed encoders", "effectful/handlers/llm/encoding.py"), ("content block linearisation", "effectful/handlers/llm/encoding.py")],
  ["encoded and decoded values, schema validation, content blocks"])

p("C21", "Each tool call is decoded, executed once and answered, in order",
  "The tools offered to the model are exactly those in the template's scope, each under a unique name with the parameters of its signature; every call the model requests is executed exactly once with the decoded arguments, in the order requested, and answered by exactly one message carrying its identifier and its encoded result, before the model is asked again. Unknown tools or arguments that do not decode execute nothing and raise an error that identifies the offending call.",
  ["histories", "inputs", "fault_sequences"], "every script of model responses with any number of tool calls, valid or not, over any tool set",
  "Tests script a few conversations.",
  ["effectful/handlers/llm/completions.py", "effectful/handlers/llm/encoding.py"], [("collect_tools, call_assistant, call_tool", "effectful/handlers/llm/completions.py")],
  ["requests passed to the completion operation", "tool invocations", "messages"])

p("C22", "Message histories are well-formed, complete and isolated per agent",
  "Every request sent to the model carries a well-formed history: system message first, unique message identifiers, every assistant tool call followed by its answer. An agent's history persists across its calls in order and is changed by nothing but successful calls of the agent's own templates made outside of any other call: not by other agents, stateless templates, calls nested in a running call (by the model or by the body of a tool), or calls that fail, after which it is exactly what it was before the call.",
  ["histories", "fault_sequences"], "every sequence of calls over several agents and templates, with nested template calls and failures injected at any step",
  "Tests check short sequences with at most one failure.",
  ["effectful/handlers/llm/completions.py", "effectful/handlers/llm/template.py"], [("message sequence scoping and commit on success", "effectful/handlers/llm/completions.py")],
  ["messages in each request", "agent history after each call"],
  [("history", "ordered messages by identifier", "effectful/handlers/llm/template.py")])

p("C23", "Retries are bounded, informed by the error and leave no trace",
  "With retrying installed, a malformed response is retried at most the configured number of times, each retry showing the model its faulty message and the error; the first good response is returned and the failed attempts do not remain in the history. When the attempts run out the last error is raised; failures of the configured tool-error types become answers for the model while every other error propagates at once.",
  ["fault_sequences", "histories"], "every sequence of good and bad responses of each kind, every retry bound, every set of caught errors",
  "Tests script a few sequences.",
  ["effectful/handlers/llm/completions.py"], [("RetryLLMHandler", "effectful/handlers/llm/completions.py")],
  ["requests passed to the completion operation", "result or error", "final history"])

p("C24", "Prompts render exactly the template with the arguments' encodings",
  "Calling a template sends the text of its prompt, dedented, with every placeholder replaced by the encoding of the named argument or visible lexical variable: attribute access, indexing and nested fields work as in Python formatting, and conversions and format specifications apply to the text of the encoded value. All other text, escaped braces included, is unchanged, and images are separate content in place. A prompt that refers anywhere to a name that is neither a parameter nor visible where the template is defined is rejected at definition.",
  ["inputs", "programs"], "every prompt text and every argument tuple from the generator",
  "Tests render a few prompts.",
  ["effectful/handlers/llm/completions.py", "effectful/handlers/llm/template.py"], [("call_user formatting", "effectful/handlers/llm/completions.py"), ("prompt validation at definition", "effectful/handlers/llm/template.py")],
  ["content of the user message"])

p("C25", "A template sees its lexical scope, and itself only when declared recursive",
  "The names available to a template - as tools, readable values and evaluation context - are those visible at its definition by Python's scoping rules: the local variables of the functions that enclose it, inner ones first, then those of its module (the body of a class is not a scope its methods see), with the values they have at the time of the call, also after the enclosing function has returned. A template that is not declared recursive does not offer itself to the model as a tool; each other tool that is visible is offered once, whatever number of names it has, the tools of a visible agent are offered under the name of the agent, and what one template sees never leaks into another.",
  ["programs", "configurations"], "every nesting of modules, functions, classes and agents that define templates and tools",
  "Tests cover a few fixed nestings.",
  ["effectful/handlers/llm/template.py", "effectful/handlers/llm/completions.py"], [("capture of enclosing frames at definition", "effectful/handlers/llm/template.py"), ("collect_tools", "effectful/handlers/llm/completions.py")],
  ["tools offered in the request", "environment passed to evaluation"])

p("C26", "A code session behaves like one Python session",
  "Executing snippets one after another in a session gives the bindings, printed output and errors that one ordinary Python session fed the same snippets would give: definitions persist, later snippets see earlier ones, functions see later rebindings, and an error in one snippet is reported without losing the effects that came before it. Sessions are isolated from each other and from the interpreter that hosts them: output is captured per snippet, and the host's variables, output streams and builtins are left as they were.",
  ["programs", "histories", "fault_sequences"], "every sequence of snippets from the generator, including failing ones, compared with the standard interactive interpreter",
  "Tests run a few snippet pairs.",
  ["effectful/handlers/llm/evaluation.py", "effectful/handlers/llm/completions.py"], [("ReplSession.exec_code", "effectful/handlers/llm/evaluation.py")],
  ["session bindings, captured output and errors"])

p("C27", "Restricted evaluation contains what generated code can reach",
  "Code run under the restricted provider can never import modules, reach interpreter internals by reading, assigning or deleting underscore names and attributes, or use files, dynamic evaluation and other builtins that are not provided, whatever the environment contains under the guards' names; every such attempt fails with an error before having an effect. Code within the restricted language computes the same values and bindings as under the unrestricted provider.",
  ["inputs", "programs"], "every program from a grammar of ordinary snippets and of known escape routes placed in any syntactic position",
  "Tests try a dozen escapes.",
  ["effectful/handlers/llm/evaluation.py"], [("RestrictedEvalProvider with guarded attribute, item and write access", "effectful/handlers/llm/evaluation.py")],
  ["effects on canary objects and files", "errors raised", "resulting bindings"])

p("C28", "Synthesised functions are returned only when they satisfy the requested type",
  "A function decoded from generated source is returned only if the source is valid, its last statement defines a function that takes exactly the requested parameters and declares a return type, and - where the request is the answer to a template whose source can be recovered - the source type-checks in the place of that template's body, in its real lexical scope, whatever errors the module has elsewhere; otherwise decoding raises an error, and unless only the result of running it shows the mismatch (a decorator), none of the source runs. Well-typed sources are accepted. A returned function computes what the source says in the context of the request; decoding never alters that context, and the function encodes back to its own definition whatever was decoded in between. Session code is checked likewise, after the snippets before it.",
  ["programs", "inputs"], "every generated source and requested signature from the generator",
  "The evaluation tests are not part of the stable suite and check a few sources.",
  ["effectful/handlers/llm/encoding.py", "effectful/handlers/llm/evaluation.py"], [("callable decoding: parse, type check, compile, execute", "effectful/handlers/llm/encoding.py"), ("type check of the source spliced into its context", "effectful/handlers/llm/evaluation.py")],
  ["decoded function, errors, executions observed through the evaluation operations"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
