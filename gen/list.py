AI = "path-sensitive abstract interpretation of go/ssa (exploded graph; opaque inputs, equality facts, allocation-site heap)"

prop("C01", "Errors raised while a request is evaluated surface and never allow it",
     "If a matcher function, the role manager behind g(), a custom effector or an expression stored in a rule returns an error or panics while a request is evaluated, or the matcher reads a value that the request or the rule does not have, "
     "Enforce, Filter, RangeMatches and their WithContext variants return an error instead of silently treating the rule as not matching, and Enforce never returns true together with an error. "
     "If nothing fails no error is returned. Errors of a role manager are returned by AddRule, RemoveRule, AddRules and RemoveRules, and the change is not reported as done.",
     ["faults", "inputs"],
     "every point at which a user function, role manager, effector or rule expression is called may fail, for all rules and requests",
     "Tests inject no failures; each of the call sites has to pass an error up through stages, listeners and options.",
     ["enforcer.go", "model/model.go", "model/matcher/matcher.go", "model/fm/function.go", "model/effector/effector.go", "rbac/role_policy.go"],
     [("errors of stage evaluations", "model/matcher/matcher.go rangeMatches"), ("errors of effectors", "enforcer.go"), ("panics of matcher functions", "util WrapMatchingFunc"), ("errors of role changes", "rbac/role_policy.go")],
     ["Enforcer.Enforce", "Enforcer.Filter", "Enforcer.RangeMatches", "Enforcer.AddRule", "Model.AddRule"],
     AI + " with a fault fork at every call of a user function, role manager and effector",
     "Up to two rules of three columns, 12 matcher shapes, five matchers reading missing values. A fault that is not reached (short-circuit) need not surface.")

prop("C02", "The decision is what the effect expression says about the matching rules",
     "Enforce returns true exactly if the effect expression holds for the effects of the matching rules: some(where (p.eft == allow)) if a matching rule allows, !some(where (p.eft == deny)) if none denies, "
     "and their conjunction if one allows and none denies. A rule allows if its eft column (wherever the definition puts it) is allow or empty or the definition has none, denies if it is deny, and is indeterminate otherwise. "
     "The order in which rules are evaluated does not matter. An effect expression that is not supported is an error. "
     "A custom effector sees each matching rule with its effect exactly once until it decides, and once complete=true when it has not decided; its last answer is the decision.",
     ["inputs", "configurations"],
     "all rules, effect values, requests, orders of evaluation; effector given by the model, key, expression, definition or implementation",
     "The order of evaluation is the iteration order of a map; tests sample few combinations of effects.",
     ["enforcer.go", "model/effector/effector.go", "model/defs/defs.go", "model/eft/eft.go"],
     [("effect of a rule", "model/defs PolicyDef.GetEft"), ("merging", "model/effector/effector.go"), ("decision loop", "enforcer.go EnforceWithContext")],
     ["Enforcer.Enforce", "Enforcer.EnforceWithContext"],
     AI + " over all orders of evaluation, against the quantified effect expression",
     "Two (thorough: three) arbitrary rules, three layouts of the policy definition.")

prop("C03", "Matches reported are exactly the rules for which the matcher is true",
     "RangeMatches and Filter report a rule of the policy if and only if the matcher expression evaluates to true for that rule and the request, "
     "with every policy and request argument read from the column its definition gives it. "
     "This holds for every combination of &&, ||, parentheses and function calls of the matcher, every rule content and every result of the matcher functions; a rule that matches is never missed and a rule that does not match is never reported. "
     "A request may start with the key of its definition, values beyond the definition are not read.",
     ["inputs", "configurations"],
     "all rule contents, request values and matcher-function results, for matchers built of ==, &&, ||, parentheses and function calls over one policy",
     "The tests evaluate a handful of fixed models with fixed policies; the staged compilation, the index lookup and the column resolution have to be right for every rule and every shape of matcher.",
     ["model/defs/matcher_def.go", "model/defs/defs.go", "model/matcher/matcher.go", "model/model.go", "enforcer.go"],
     [("staged compilation of the matcher", "model/defs/matcher_def.go Build/buildExprTree"), ("tree of stages with an index of rules", "model/matcher/matcher.go"), ("columns", "model/defs/defs.go PolicyDef/RequestDef")],
     ["Enforcer.Filter", "Enforcer.RangeMatches", "Model.RangeMatches"],
     AI + " against an independent evaluation of the matcher expression",
     "Two rules of up to three columns (five definitions for the column rule), 12 matcher shapes with up to three alternatives.",
     thorough=False)

prop("C04", "A matcher follows the policy through every history of changes",
     "After any sequence of adding, removing, re-adding and clearing rules, a matcher that was built before, during or after these changes reports exactly the matching rules of the current policy: "
     "no removed rule is still reported, no added rule is missing, and a matcher built afterwards agrees with one built before.",
     ["histories", "inputs"],
     "all histories of add/remove/clear of two arbitrary rules (equal or sharing columns in any way) up to the length bound, matcher built at any point",
     "The tests add rules and query once; the index of a matcher is maintained by listeners and shared nodes, errors appear only after particular sequences of rules that share prefixes.",
     ["model/matcher/matcher.go", "model/model.go", "model/policy/policy.go"],
     [("listeners keep the stage index in step with the policy", "model/matcher/matcher.go NewMatcher/addRule/removeRule/clear"), ("policy events", "model/policy/policy.go")],
     ["Model.RangeMatches", "Enforcer.RangeMatches", "Enforcer.Filter"],
     AI + " over histories, compared with the rule set the history leaves",
     "Two arbitrary rules of three columns, histories of up to four (thorough: six) operations, nine (thorough: all thirteen) matcher shapes, four matchers over role rules; an empty policy is not judged.")

prop("C05", "A compiled matcher means what its expression says",
     "A matcher that is split into stages reports exactly the rules for which the expression, read as written, is true: precedence and parentheses of &&, ||, !, ?: and in, "
     "literals (with quotes, escapes, operators, or texts that look like p.x or r.x), numbers and arguments of functions keep their meaning. "
     "A matcher built from a definition of the model, from its key, from an expression, from a definition object or passed as a matcher evaluates the same.",
     ["inputs", "configurations"],
     "all expressions of up to four (thorough: five) conditions with && and || in every parenthesisation, with negations, and a list of textual edge cases, for all rules and requests",
     "Tests use about a dozen matchers; mistakes in splitting or re-printing an expression show only for particular nestings or literals.",
     ["model/defs/matcher_def.go", "model/defs/defs.go", "model/matcher/matcher.go", "model/model.go", "context.go"],
     [("splitting into stages", "model/defs/matcher_def.go buildExprTree"), ("printing of tokens", "model/defs/matcher_def.go tokensToExpr"), ("argument names", "model/defs ReplaceArgs/findArgs")],
     ["Model.BuildMatcherFromDef", "Model.RangeMatches", "SetMatcher"],
     AI + "; enumeration of expressions, each compiled abstractly and compared with the unsplit expression",
     "The expression parser is interpreted by the trusted model fcheck/gv.go; conditions that are not boolean are outside the property.")

prop("C07", "Rule changes are truthful, notified exactly once and enumerable",
     "For every kind of policy, AddRule returns true exactly if the rule was absent and RemoveRule returns true exactly if it was present, with no error for well-formed rules. "
     "Every effective change notifies its listeners exactly once with exactly that rule, an ineffective one notifies nobody. "
     "After any history, enumerating the rules yields each present rule exactly once and nothing else.",
     ["histories", "inputs"],
     "all histories of AddRule/RemoveRule with two arbitrary rules (any of their values may coincide) on policies, role policies with and without domains, and the model",
     "Tests add and remove a few distinct literal rules; wrong answers need rules that collide in a key, derived role links, or a particular order of operations.",
     ["model/policy/policy.go", "model/policy/policy_api.go", "rbac/role_policy.go", "rbac/role_manager.go", "rbac/domain_manager.go", "model/model.go", "util/util.go"],
     [("rule keys", "util/util.go Hash"), ("policy", "model/policy/policy.go AddRule/RemoveRule"), ("role policy", "rbac/role_policy.go"), ("forwarding of events", "model/model.go")],
     ["IPolicy.AddRule", "IPolicy.RemoveRule", "IPolicy.Range", "Model.AddRule", "Model.RemoveRule", "Model.RangeRules"],
     AI + " over histories, compared with a set of rules",
     "Two arbitrary rules, histories of up to three (thorough: four) operations.")

STORE = ["storage/controller.go", "enforcer.go"]
STORE_SEQ = "histories of adding and removing single and several rules, flushing, loading, saving and changing settings, with an adapter (simple, batch, both) of which any calls may fail"

prop("C09", "Pending changes reach the storage in order, none lost, none twice",
     "The adapter receives exactly the changes made to the rules of the enforcer since they were last stored, oldest first, each with its kind (add or remove) and its rule. "
     "A change the adapter did not accept (its call failed, or a batch did) stays pending together with all later ones and is stored by a later Flush; a change that was accepted is not sent again. "
     "After a Flush that reports no failure nothing is pending.",
     ["histories", "faults"],
     STORE_SEQ,
     "Tests use adapters that never fail; losing or repeating changes needs a failure in the middle of a queue.",
     STORE, [("queue of pending changes", "storage/controller.go Flush/saveChanges")],
     ["Enforcer.Flush", "Enforcer.AddRule", "IStorageController.Flush"],
     AI + " over histories with fault forks, calls of the adapter compared with the queue of a specification automaton",
     "Three arbitrary rules of two kinds, histories of up to four (thorough: five) operations, at most two failing calls (six in single histories).")

prop("C10", "The stored rules and the rules in memory agree after flush, save and load",
     "If Flush reports success, applying the writes the adapter accepted yields exactly the rules of the enforcer. SavePolicy passes every rule of the enforcer exactly once and nothing else to the adapter. "
     "After LoadPolicy the enforcer has its former rules and every rule the adapter loaded.",
     ["histories", "faults"],
     STORE_SEQ,
     "Tests compare one saved file; a divergence needs histories of changes and failures.",
     STORE + ["model/model.go"], [("queue of pending changes", "storage/controller.go"), ("enumeration of rules", "model/model.go RangeRules")],
     ["Enforcer.Flush", "Enforcer.SavePolicy", "Enforcer.LoadPolicy"],
     AI + " over histories with fault forks; writes of the adapter replayed and compared with the enumerated rules of the model",
     "Three arbitrary rules, histories of up to three (thorough: four) operations, at most one failing call.")

prop("C11", "Autosave stores every change at once, and nothing is stored without it",
     "With OptionAutosave(true) a change made by AddRule, RemoveRule, AddRules or RemoveRules has been stored when the call returns (or when the number of changes given to AddWait have gathered). "
     "Without it, or by an operation that changes nothing, the adapter is not written before Flush. "
     "Changes made while OptionStorage(false) is in force are not stored, not even later. These settings are changed only by setting them: no operation changes them, also when it fails.",
     ["histories", "configurations", "faults"],
     STORE_SEQ,
     "Tests check autosave for single changes; a setting that is not restored after a failed batch needs a failure in the middle.",
     STORE, [("autosave and waiting", "storage/controller.go"), ("AddRules/RemoveRules switch autosave off and on", "enforcer.go")],
     ["Enforcer.AddRule", "Enforcer.AddRules", "Enforcer.SetOption", "StorageController.AutosaveEnabled"],
     AI + " over histories with fault forks, calls of the adapter compared with a specification automaton",
     "Three arbitrary rules, histories of up to three (thorough: four) operations after a prefix, at most one failing call.")

prop("C12", "Loading a policy does not write it back to the storage",
     "Loading a policy, by LoadPolicy or when NewEnforcer is given a policy file, never causes a write to the adapter, neither at once nor by a later Flush or autosave, also when it fails after some rules or happens while other changes are pending; "
     "pending changes made before are kept, and changes made after it are stored as usual.",
     ["histories", "faults"],
     STORE_SEQ,
     "Tests load once from an intact file; the storage must come back on after a failed load and stay off if it was off.",
     STORE, [("storage is disabled while loading", "enforcer.go LoadPolicy")],
     ["Enforcer.LoadPolicy", "Enforcer.Flush"],
     AI + " over histories with fault forks",
     "Two loaded rules (which may equal present ones), histories of up to three (thorough: four) operations.")

prop("C13", "Failures of the storage are reported, and only those",
     "If a call of the adapter fails during an operation of the enforcer (LoadPolicy, SavePolicy, Flush, AddRule, RemoveRule, AddRules, RemoveRules with autosave), the operation returns an error. "
     "If no call of the adapter failed, these operations return no error for well-formed rules, and no operation panics.",
     ["histories", "faults"],
     STORE_SEQ,
     "Tests use adapters that never fail.",
     STORE, [("listener errors", "storage/controller.go"), ("events", "enforcer.go")],
     ["Enforcer.Flush", "Enforcer.LoadPolicy", "Enforcer.SavePolicy", "Enforcer.AddRule", "Enforcer.AddRules"],
     AI + " over histories with a fault fork at every call of the adapter",
     "Three arbitrary rules, histories of up to three (thorough: four) operations, at most two failing calls.")

prop("C06", "Rules are told apart by their values, whatever characters the values contain",
     "Two rules have the same key (util.Hash) exactly if they have the same values in the same order. "
     "Adding, removing and enumerating rules of a policy or role policy never confuses two different rules, whatever separators, quotes, spaces or empty values they contain. "
     "GetDistinct returns every combination of the values of the given columns exactly once and an error for a column that does not exist. "
     "GetAllDomains and GetDomains of a DomainManager return every domain that has links exactly once.",
     ["inputs"],
     "all values of rules of up to three values, and forty lists of values made of separators, quotes and escapes",
     "Collisions need values that contain the separator in the right places.",
     ["util/util.go", "model/policy/policy.go", "rbac/role_policy.go", "rbac/domain_manager.go"],
     [("key of a rule", "util Hash"), ("rule map", "model/policy/policy.go"), ("domain keys", "rbac/domain_manager.go")],
     ["util.Hash", "Policy.AddRule", "Policy.GetDistinct", "RolePolicy.AddRule", "DomainManager.GetAllDomains"],
     AI + " with an injectivity theory for quoted and length-prefixed texts, and over a list of hostile constants",
     "Two rules of up to three values.")

prop("C14", "Exchanging adapter, model or settings redirects the enforcer completely",
     "After SetAdapter every change of the rules is stored exactly once by the new adapter and never by the former one, and LoadPolicy and SavePolicy use the new one. "
     "After SetModel the rules, decisions, load and save are those of the new model; changes of the new model are stored exactly once and changes of the former model are not stored. "
     "Both keep the setting of autosave. NewEnforcer uses the model and the adapter (object or file name) it was given, and returns an error if they cannot be used or an option fails.",
     ["histories", "configurations"],
     "all combinations of kind of adapter and settings, exchanges done once or several times, before or after rules were added",
     "The tests set adapter and model once, before anything else.",
     ["enforcer.go", "storage/controller.go", "enforcer_api.go"],
     [("storage controller follows model and adapter", "enforcer.go SetModel/SetAdapter"), ("listeners", "storage/controller.go")],
     ["NewEnforcer", "Enforcer.SetAdapter", "Enforcer.SetModel", "Enforcer.SetOption"],
     AI + " over entry sequences with two adapters and two models",
     "One or two exchanges; nothing is pending at the exchange.")

prop("C15", "A failed or interrupted save never costs the policy file",
     "While FileAdapter stores (SavePolicy, AddRule, AddRules, RemoveRule, RemoveRules), at every moment the policy file holds the complete old or the complete new policy, "
     "whichever system call fails or wherever the process stops; a file that replaces it has been synchronised. "
     "If a system call fails the call returns an error and leaves the old or the new policy, and the same call made again later succeeds. "
     "No file handle stays open, and without failures no other file is left behind. LoadPolicy changes no file and reports a file it cannot open or read.",
     ["faults", "crash points"],
     "a failure at every system call and a crash after every system call of each operation",
     "Tests never fail a system call and never stop in the middle of a save.",
     ["storage/adapter/fileadapter.go"],
     [("writing and replacing the policy file", "storage/adapter/fileadapter.go")],
     ["FileAdapter.SavePolicy", "FileAdapter.AddRule", "FileAdapter.RemoveRules", "FileAdapter.LoadPolicy"],
     AI + " over a model of the file system with a fault fork at every system call; the content of the policy file is judged after each of them",
     "Policies of up to three rules, one (thorough: two) failing calls per operation. A failing write may write a prefix. Rename is atomic, as POSIX says.")

prop("C16", "Rules saved to a policy file are loaded unchanged",
     "Loading a policy file written by FileAdapter.SavePolicy yields exactly the rules that were saved, whatever their values contain (commas, quotes, spaces, comment signs, line breaks), and however many values they have. "
     "AddRule, AddRules, RemoveRule and RemoveRules change exactly the given rules in the file. "
     "Comments (#) and blank lines are no rules. A rule that the receiver rejects with an error makes LoadPolicy fail; a malformed line is not silently dropped.",
     ["inputs"],
     "thirty-odd hostile values in all pairs, and arbitrary values",
     "Tests use plain words.",
     ["storage/adapter/fileadapter.go", "storage/adapter.go"],
     [("quoting and parsing of lines", "storage/adapter")],
     ["FileAdapter.SavePolicy", "FileAdapter.LoadPolicy", "FileAdapter.AddRule", "FileAdapter.RemoveRule", "LoadPolicyLine"],
     AI + " over a model of the file system; the csv reader and the quoting are folded over constant texts and kept as an injective code over arbitrary ones",
     "Policies of up to three rules. One known finding (\\r\\n inside of a value).")

prop("C21", "A cache returns the value put last, or nothing",
     "Get of LRUCache and SyncLRUCache returns the value that was put last for the key, or reports that it has none; never another value, never a value for a key that was not put. "
     "A key is found as long as fewer other keys than the capacity were used since its last use; when more are, the least recently used one is given up. "
     "A cache of capacity zero keeps nothing and does not panic.",
     ["histories"],
     "all histories of Put and Get over three keys that may be equal",
     "Stale values need updates of a present key and evictions in a particular order.",
     ["util/cache.go"],
     [("list and map of entries", "util/cache.go")],
     ["LRUCache.Get", "LRUCache.Put", "SyncLRUCache.Get", "SyncLRUCache.Put"],
     AI + " over histories, compared with a list of entries",
     "Capacities one and two, histories of four (thorough: five) operations.")

prop("C22", "An iteration stops when the callback says so and is complete otherwise",
     "Range of a policy, role policy, RoleManager and DomainManager, RangeRules of a model, and RangeMatches of model and enforcer never call the callback again once it has returned false, also if it removed the rule it was given, and stopping is not an error. "
     "A callback that always returns true is called for every rule by Range and RangeRules.",
     ["inputs", "schedules"],
     "every call of the callback may return false, every order of iteration",
     "Tests stop nothing; nested loops need the answer to be passed up through every level.",
     ["model/policy/policy.go", "model/model.go", "model/matcher/matcher.go", "rbac/role_manager.go", "rbac/domain_manager.go", "rbac/role_policy.go"],
     [("nested iterations", "rbac, model, model/matcher")],
     ["Policy.Range", "RolePolicy.Range", "Model.RangeRules", "Model.RangeMatches", "Enforcer.RangeMatches"],
     AI + " with a callback of arbitrary answers",
     "Three rules per iteration, seven matcher shapes.", thorough=False)

prop("C19", "Role queries agree with the role links that are present",
     "After any history of AddLink and DeleteLink, HasLink(u, r, domains) of RoleManager and DomainManager holds exactly if u equals r or a chain of links leads from u to r, in this domain only; cycles terminate. "
     "A chain counts if it has at most n-1 links for NewRoleManager(n), n-2-k for NewDomainManager(n) and k domains. "
     "With a role matcher a link of a pattern u* applies to every name the matcher accepts for it, and a link to a pattern s* makes every matching name a role; "
     "with a domain matcher a link of a domain pattern applies in every matching domain and subdomain, alone, nested and overlapping, whether the domain is already known or not, and ends with the pattern's link only. The matcher is asked Match(name, pattern). "
     "GetRoles and GetUsers return the direct roles and users among the known names and nothing that is not inherited. GetAllDomains lists the domains of the links, GetDomains those in which the name has a link. "
     "AddLink and DeleteLink report whether they changed anything, Range passes exactly the links added and not deleted. Queries in between change none of this.",
     ["histories", "inputs"],
     "all histories of adding and deleting a fixed set of links (cycles, patterns, nested domains) up to the length bound, all results of the matchers",
     "Derived links of patterns, temporary roles of queries and shared names interact over histories; the tests check a few final states.",
     ["rbac/role_manager.go", "rbac/domain_manager.go", "rbac/role.go"],
     [("links and matches", "rbac/role.go, role_manager.go getRole"), ("derived links of domain patterns", "rbac/domain_manager.go")],
     ["RoleManager.HasLink", "RoleManager.GetRoles", "RoleManager.GetUsers", "DomainManager.HasLink", "DomainManager.GetDomains"],
     AI + " over histories of links with arbitrary matchers, against the transitive closure of the links",
     "Eight sets of three to five links over concrete names, histories of three (thorough: four) changes, with interleaved queries of two links; links between two patterns and queries for patterns are not judged.")

prop("C28", "When a matcher is set does not matter, only which one is set last",
     "SetMatcher and SetDomainMatcher of RoleManager and DomainManager may be called before, between or after AddLink and DeleteLink, repeatedly, and with nil to remove the matcher: "
     "afterwards HasLink, GetRoles and GetUsers answer from the links present and the matchers set last, no link is lost, and nothing derived with an earlier matcher remains.",
     ["histories", "inputs"],
     "all histories of adding and deleting links and setting two different matchers or none, up to the length bound, all results of the matchers",
     "Tests set matchers before any link; caches of match results and derived links must be rebuilt.",
     ["rbac/role_manager.go", "rbac/domain_manager.go"],
     [("rebuilding", "rbac RoleManager.rebuild, DomainManager.rebuild")],
     ["RoleManager.SetMatcher", "DomainManager.SetMatcher", "DomainManager.SetDomainMatcher"],
     AI + " over histories of links and matchers, against the transitive closure under the last matchers",
     "Three sets of two or three links, histories of three (thorough: four) changes.")

prop("C17", "Queries may run concurrently with each other",
     "While nothing is changed, any two queries may run at the same time on the same enforcer, model or role manager: Enforce, Filter, RangeMatches and their WithContext variants (with separate contexts), "
     "Model.RangeRules and String, and HasLink, GetRoles, GetUsers, GetDomains, GetAllDomains and Range of RoleManager and DomainManager, also for names and domains that are not known. "
     "They never access the same memory without a common lock if one of them writes, they release every lock they take and cannot deadlock, "
     "and a query of a role manager gets the answer it would get alone, whatever other query runs in between two of its steps.",
     ["schedules", "inputs"],
     "all pairs of queries, all interleavings at synchronisation points, all requests and results of matcher functions",
     "A data race needs a particular schedule; queries fill caches, register temporary roles and create things lazily, which looks harmless in any sequential test.",
     ["rbac/role_manager.go", "rbac/domain_manager.go", "util/util.go", "enforcer.go", "model/model.go", "model/matcher/matcher.go", "model/fm/function.go"],
     [("temporary roles of a query", "rbac/role_manager.go getRole/removeRole"), ("caches", "util LRU caches"), ("function maps", "model RangeMatches")],
     ["Enforcer.Enforce", "Enforcer.Filter", "Model.RangeMatches", "RoleManager.HasLink", "DomainManager.GetDomains"],
     "lockset analysis of all accesses to shared memory found by abstract interpretation of go/ssa (conflicting accesses of two queries must share a lock), lock-order cycles, and exploration of interleavings at synchronisation points",
     "Pairs of queries after one history per role system (RoleManager, DomainManager, with and without matchers), one enforcer with g() with and without domains. sync.Map, sync.Pool and mutexes are trusted; library internals (govaluate, regexp, logrus) are assumed safe. Contexts that share a matcher definition object are excluded.")

prop("C18", "A query changes nothing, even if it fails, panics or is stopped early",
     "Enforce, Filter, RangeMatches and their WithContext variants, Model.RangeRules and the queries of RoleManager and DomainManager (HasLink, GetRoles, GetUsers, GetDomains, GetAllDomains, Range), "
     "for known and unknown names and domains, with any context option, whether they succeed, return an error, are stopped by their callback or interrupted by a panic of a callback or of a matcher of the role manager, "
     "release all locks and leave the stored rules, the role links, their domains and the answer of every later query as they were.",
     ["inputs", "faults"],
     "all queries and requests; matcher functions, role matchers and callbacks that fail, stop or panic at any of their calls",
     "Queries register temporary roles, build matchers for their options and hold locks while calling user code; what is left over after a failure shows only in a later query.",
     ["rbac/role_manager.go", "rbac/domain_manager.go", "rbac/role.go", "enforcer.go", "context.go", "model/model.go", "model/matcher/matcher.go"],
     [("temporary roles of a query", "rbac/role_manager.go getRole/removeRole"), ("matchers of options", "context.go")],
     ["Enforcer.Enforce", "Enforcer.RangeMatches", "RoleManager.HasLink", "DomainManager.GetRoles"],
     AI + " with a panic, error and stop fork at every call of user code, followed by all queries again",
     "Two arbitrary rules, two (thorough: twelve) matcher shapes; role systems of two to four links with and without matchers. Memory held by options of earlier calls (listeners) is not judged.")

prop("C08", "Clearing a policy removes all of its rules and nothing else",
     "Clear of Policy and RolePolicy and ClearPolicy of a model, at any point of a history, leave no rule of that policy: nothing is enumerated, AddRule of a former rule reports true again and RemoveRule false. "
     "If there were rules, listeners of the policy get EVT_CLEARED exactly once; if the role manager fails to clear, the error is returned and nobody is notified. "
     "Rules of the other policies of the model stay, decisions follow: after ClearPolicy(\"g\") g() holds no more except for equal names. A role manager that was cleared keeps its matchers and answers all queries from the links added since then only. "
     "ClearPolicy of an unknown key is an error and changes nothing.",
     ["histories", "inputs"],
     "all histories of two arbitrary rules with Clear at every position, up to the length bound; all pairs of policies of a model",
     "What survives a Clear (indices, links of patterns, domains) shows only when particular rules are added or queried afterwards.",
     ["model/policy/policy.go", "rbac/role_policy.go", "rbac/role_manager.go", "rbac/domain_manager.go", "model/model.go"],
     [("rules and event", "model/policy Policy.Clear, rbac RolePolicy.Clear"), ("links, patterns and caches", "rbac RoleManager.Clear, DomainManager.Clear"), ("dispatch", "model ClearPolicy")],
     ["Policy.Clear", "RolePolicy.Clear", "Model.ClearPolicy", "RoleManager.Clear", "DomainManager.Clear"],
     AI + " over histories with Clear at every position, against the set of rules the history leaves",
     "Up to two changes before and two (thorough: three) after Clear; a matcher's index after clear is part of C04; the storage is not told about Clear and not judged.")

prop("C26", "Rules are isolated from the slices of the caller",
     "A slice passed to AddRule, RemoveRule, AddRules or RemoveRules, a list of domains passed to AddLink, DeleteLink or a query and the values of a request are neither written to nor extended in place, "
     "and may be changed or reused by the caller after the call: the rules of the model, the answers of matchers, the role links and the changes waiting for Flush stay what they were at the time of the call. "
     "Rules passed to the callbacks of RangeMatches and Model.RangeRules, rules returned by Filter and lists returned by GetRoles, GetUsers, GetDomains and GetAllDomains may be changed as well: no two of them share memory and no rule, link or later answer changes; later calls do not change what was returned before.",
     ["inputs", "histories"],
     "all rules; every slice overwritten over its whole capacity after every call, slices cut out of larger arrays",
     "Tests pass literals and never touch a slice again; aliasing shows only if a buffer is reused.",
     ["model/policy/policy.go", "rbac/role_policy.go", "storage/controller.go", "model/model.go", "rbac/role_manager_api.go"],
     [("copies of stored rules", "model/policy Policy.AddRule, rbac RolePolicy.AddRule"), ("queue", "storage/controller.go"), ("rules handed out", "model RangeMatches, RangeRules")],
     ["Enforcer.AddRule", "Enforcer.AddRules", "Enforcer.Filter", "Enforcer.RangeMatches", "Model.RangeRules", "StorageController.Flush"],
     "abstract interpretation of go/ssa with an aliasing-precise heap (allocation-site objects, slices with offset and capacity); the caller overwrites what it passed and received",
     "Two rules per policy kind (p, g with and without domains), simple and batch adapter, autosave on and off. Policy.Range and listeners, which see the stored slice, are not judged.",
     thorough=False)

prop("C23", "Malformed input is an error, never a panic",
     "Rules of unknown policies or with an unknown or empty key, role rules with fewer than two names, empty rules, matchers that do not parse or name unknown policies or functions, unknown request definitions, "
     "wrong numbers or types of the arguments of g, pathMatch, regexMatch, ipMatch or globMatch, definitions in the wrong section, columns a rule does not have (GetDistinct), malformed lines of a policy file and models that are no models "
     "are reported as an error by the call that uses them; no exported call panics on them, the rules are unchanged and no listener is notified. Accessors of names that do not exist report that they are not there, requests with missing, additional, nil or non-string values and rules that are too short or too long never panic.",
     ["inputs"],
     "a catalogue of malformed inputs over every exported entry point that takes rules, names, expressions, columns or files; remaining values symbolic, rule keys arbitrary",
     "Tests cover a few malformed inputs on single entry points; a panic in a decision takes the caller down.",
     ["enforcer.go", "model/model.go", "util/builtin_operators.go", "rbac/role_manager_api.go", "storage/adapter/file_adapter.go"],
     [("rules", "model/model.go AddRule, rbac RolePolicy"), ("arguments", "util/builtin_operators.go, rbac g function"), ("queries", "context.go, enforcer.go"), ("files", "storage/adapter/file_adapter.go")],
     ["Enforcer.AddRule", "Enforcer.AddRules", "Enforcer.RemoveRule", "Enforcer.RemoveRules", "Enforcer.Enforce", "Enforcer.Filter", "Model.SetDef", "NewContext", "FileAdapter.LoadPolicy"],
     "abstract interpretation of go/ssa; every path of a call with malformed arguments must return an error, none may reach a panic (explicit, index, nil, type assertion)",
     "Set-up: one model with simple, role and domain policies. Panics inside of opaque library calls (govaluate's evaluation is modelled) are not seen.")

prop("C25", "The role function is answered by the role manager of its key",
     "g(...) of a matcher, for every role key, asks the role manager that was set for this key last - by the definition or by SetRoleManager, before or after the matcher was built - with the names and domains in the order of the arguments, and its answer is the value of g(...). "
     "Rules of the key become links of this manager (all values, in order, whatever call adds or removes them), its result is the result of the call, ClearPolicy clears it, RangeRules enumerates its links; other managers are not called. "
     "With the role managers of the package, Enforce therefore agrees with the role rules that are present: rules of different keys and domains do not mix.",
     ["inputs", "histories"],
     "all links (uninterpreted relation), request and rule values; with the managers of the package all subsets of four (thorough: six) role rules reached with and without removals",
     "Tests use one role key and the manager that the model created.",
     ["model/model.go", "rbac/role_manager_api.go", "rbac/role_policy.go", "model/handlers.go"],
     [("g function", "rbac.GenerateGFunction"), ("exchange", "Model.SetRoleManager"), ("rules to links", "rbac/role_policy.go")],
     ["Model.SetRoleManager", "Model.GetRoleManager", "Enforcer.Enforce", "Enforcer.Filter", "Enforcer.AddRule", "Enforcer.RemoveRule", "Model.ClearPolicy", "Model.RangeRules"],
     "abstract interpretation of go/ssa with role managers that are arbitrary recorded relations; calls and decisions compared with the relation of the manager that was set",
     "Chains of up to four names. Policies built from the role rules (matchers over g.user) before SetRoleManager are not judged.")

prop("C30", "Options of a query replace exactly their own part of the defaults",
     "A query uses the matcher m, the request definition r and the effect definition e of the model at the time of the query, except for the parts replaced by options: SetMatcher (key, expression, definition or matcher), SetRequestDef (key or definition) and SetEffector (key, expression, definition or effector), "
     "in any order and anywhere among the request values, the last option of a kind counts and an empty name means the default. Request values are read by the chosen request definition; a matcher that uses another request definition fails. "
     "Contexts and options can be used for any number of queries, options also for several enforcers, before and after changes of the policy, and a query with options leaves the defaults and the other definitions of the model as they are. "
     "An option that cannot be applied (an unknown request definition, an expression that cannot be built, an option that returns an error) is an error of the query, wherever it stands among other options.",
     ["inputs", "histories"],
     "combinations of nine matcher, six request definition and seven effect choices over six query methods, all orders of two and positions among the values, arbitrary request values; contexts reused after rule changes, options shared by two enforcers",
     "Tests use each option once and alone.",
     ["context.go", "enforcer.go", "model/model.go"],
     [("options", "context.go SetMatcher, SetRequestDef, SetEffector"), ("defaults", "context.go NewContext"), ("splitting of parameters", "enforcer.go splitParams")],
     ["Enforcer.Enforce", "Enforcer.EnforceWithContext", "Enforcer.Filter", "Enforcer.RangeMatches", "NewContext", "SetMatcher", "SetRequestDef", "SetEffector", "Model.SetRequestDef", "Model.SetEffector", "Model.SetMatcher"],
     "abstract interpretation of go/ssa over the combinations of options; matches and decisions compared with the expression, columns and effect that the options name",
     "Constant rules, symbolic requests. Options with a value of another type are not judged.")

prop("C24", "A definition that is set or removed affects its own key only",
     "After SetDef a definition is returned by GetDef and the accessors, is part of the model's text and its rules are accepted; after RemoveDef all of this is undone: it is not found, its rules are refused and no longer enumerated, its g function is unknown to matchers and queries that need it fail and never allow. "
     "A definition that is set again after its removal starts without rules. Removing a definition twice, an unknown key or a key of another section changes nothing. All other definitions, rules, functions, matchers and decisions stay as they are, in whatever order definitions are set and removed. A request, effect or matcher definition that is set again with another value replaces the former one (a matcher once it is built).",
     ["histories"],
     "eleven definitions of all sections (two or three keys each), each removed, removed twice, set again, and pairs of removals; the whole observable model compared after every step",
     "Tests set definitions once and hardly remove any.",
     ["model/model.go", "model/handlers.go", "model/defs/defs.go"],
     [("handlers", "model/handlers.go"), ("text", "Model.String"), ("accessors", "Model.GetDef, GetPolicy, GetRoleManager, GetEffector, GetMatcher, GetRequestDef")],
     ["Model.SetDef", "Model.RemoveDef", "Model.GetDef", "Model.String", "Model.RangeRules", "Model.AddRule", "Enforcer.Enforce"],
     "abstract interpretation of go/ssa over histories of definitions; every accessor, the text, the rules, the functions known to matchers and decisions compared with the definitions present",
     "Matchers of a policy that was removed have to be built again before they are judged. Setting a policy or role definition that is present is not judged. Redefinitions of a request, effect and matcher key are judged by their decisions.")

prop("C29", "Built-in matching functions compare value and pattern as documented",
     "regexMatch, globMatch and ipMatch return whether their first argument matches the pattern (address or CIDR) that is the second one, in matchers as well as when called directly, and fail exactly if an argument is invalid: an invalid pattern or address is an error and never allows a request, and never a panic. "
     "They and the path functions refuse a wrong number of arguments and arguments that are no strings. A wrapped custom matching function returns its result, a panic in it is an error. "
     "A Matcher asks the functions it was made of; a PrefixMatcher takes exactly the names with its prefix for patterns and matches the rest of them; RegexMatcher treats an invalid expression as one that matches nothing.",
     ["inputs"],
     "all strings as arguments, with regular expressions, globs and addresses as arbitrary relations; wrong arguments of six types in all positions; one arbitrary rule and request for the six deciding APIs; prefixes of 1 to 3 bytes with all names up to two bytes longer and of any length behind the prefix",
     "Tests compare a few examples; swapped arguments or a dropped error agree with most of them.",
     ["util/builtin_operators.go", "model/fm/function.go"],
     [("functions", "WrapMatchingFunc, GlobMatchFunc, RegexMatch, IPMatch"), ("matchers", "Matcher, PrefixMatcher, RegexMatcher"), ("default functions", "fm.DefaultFunctionMap")],
     ["Enforcer.Enforce", "Enforcer.Filter", "fm.DefaultFunctionMap", "util.RegexMatchFunc", "util.RegexMatcher"],
     "abstract interpretation of go/ssa over arbitrary arguments; the library predicates are uninterpreted, so value and pattern cannot be confused unnoticed", "Regular expressions, globs and address parsing themselves are the standard library's.")

prop("C33", "Path patterns match exactly the paths they describe",
     "A path matches a path pattern exactly if the segments of the path can be assigned to the segments of the pattern in order: a wildcard * stands for one or more segments, a parameter (:name for pathMatch, {name} for pathMatch2) for exactly one segment, every other segment for itself; the pattern * matches every path. "
     "A name is a pattern exactly if it has a wildcard or parameter segment; a name that is none matches only itself. The same holds for the functions in matchers, the matchers of role managers and for other separators, prefixes and suffixes.",
     ["inputs"],
     "paths and patterns of up to three segments of 0 to 2 bytes (thorough: four) and four (thorough: five) segments of one byte, every byte of a segment arbitrary (ASCII, not the separator)",
     "Tests have about thirty pairs; backtracking of wildcards and empty segments need particular combinations.",
     ["util/builtin_operators.go"],
     [("relation", "PathMatchHelper"), ("recognition", "IsPathPatternHelper"), ("matchers", "PathMatcher, PathMatcher2, PathMatchFunc, PathMatchFunc2")],
     ["util.PathMatch", "util.PathMatch2", "util.IsPathPattern", "util.PathMatcher", "fm.DefaultFunctionMap"],
     "abstract interpretation of go/ssa over strings of symbolic bytes; every path end is compared with the relation computed from the segments",
     "Longer segments and more segments are not explored; bytes above 127 are not.")

prop("C27", "A matcher calls the functions that are registered in its model",
     "A call of a matcher expression invokes the function that was registered last under this name in the model (Model.SetFunction, before or after the matcher was built, between any queries), once per evaluation it needs, with the arguments in the order of the expression, and uses its result; calls may be nested and a function may replace a built-in one. "
     "A model starts with the built-in functions and those of fm.SetFunction up to its creation, later changes of either do not reach it or another model. "
     "RemoveFunction reports whether the function was known. A matcher that calls a function the model does not know cannot be built (error); a query with a matcher that was built before never allows and reports no rule if the decision depends on the unknown function.",
     ["histories", "inputs", "configurations"],
     "all results of the functions (uninterpreted, identity and argument order visible), all rule and request values, seventeen forms of calls, histories of two (thorough: three) calls of SetFunction and RemoveFunction with and without queries in between, six histories of global functions around two or three models",
     "Tests register one function and call it once; a compiled expression or a function map that is kept too long shows after a particular order of registration, query and registration.",
     ["model/fm/function.go", "model/fm/global.go", "model/model.go", "model/matcher/matcher.go", "model/defs/matcher_def.go"],
     [("function map", "model/fm/function.go"), ("global functions", "model/fm/global.go"), ("calls", "Matcher.RangeMatches")],
     ["Model.SetFunction", "Model.RemoveFunction", "fm.SetFunction", "Model.BuildMatcher", "Enforcer.Enforce", "Enforcer.Filter"],
     "abstract interpretation of go/ssa over histories of registrations; decisions and matches compared with an evaluation of the expression with the functions registered last",
     "eval and functions that panic are not judged here (C18, C01). One rule per policy (thorough: two).")

prop("C32", "Instances do not influence each other",
     "Two enforcers with models of their own, two role managers or two caches are independent: whatever is called on one of them - adding, removing, clearing, loading, saving and flushing rules, setting and removing definitions, functions, role managers, matchers, adapters and options, queries with the same request or expression - changes no answer of the other one: "
     "decisions, matches, rules, links, definitions, model text, options, the rules its Flush passes to its own adapter, and it notifies no listener and calls no adapter of the other one. "
     "This holds for creating further models, enforcers and role managers as well.",
     ["histories", "inputs"],
     "all pairs of an operation (some sixty) and an observation (some twenty-five) of two enforcers with arbitrary rules, in both directions, the observation with and without one before the operation; histories of two operations for role managers, policies and role policies, three for caches; thorough: two operations for enforcers",
     "Every test uses one instance at a time; state that is shared by accident (package variables, prototypes, caches) stays invisible.",
     ["enforcer.go", "model/model.go", "model/fm/function.go", "rbac/role_manager.go", "rbac/domain_manager.go", "storage/controller.go", "util/cache.go"],
     [("models", "model.NewModel"), ("function maps", "fm.DefaultFunctionMap"), ("storage", "storage/controller.go"), ("role managers", "rbac.NewRoleManager")],
     ["Enforcer.Enforce", "Enforcer.Filter", "Enforcer.Flush", "Model.RangeRules", "RoleManager.HasLink", "DomainManager.HasLink", "LRUCache.Get"],
     "abstract interpretation of go/ssa with two instances on one heap; every observation of one compared before and after every operation on the other, under the same assumptions on the inputs",
     "Objects that a caller passes to both instances (an adapter, a role manager, a definition) are shared by intent and not judged. fm.SetFunction is global by design (C27).")

prop("C31", "A model file means the definitions that are written in it",
     "LoadModelFromText, LoadModel, NewModelFromFile and NewEnforcer with the name of a model file set exactly the definitions of the text: every key of the sections request_definition, policy_definition, role_definition, policy_effect and matchers, in whatever order sections and keys stand, with comment lines, blank lines, continued lines and unknown sections ignored, and build every matcher. Accessors, text, rules, functions and decisions of the model are those of a model whose definitions were set one by one; definitions and rules that were there before stay unless the text sets them anew. The text of a model (String), loaded again, gives a model with the same definitions and decisions. A file that cannot be read, a text that cannot be parsed, a key in a section of another kind and a matcher that cannot be built are errors, of every way to load; nothing else is.",
     ["inputs", "histories"],
     "some thirty layouts of the text of eleven definitions (thorough: all orders of the five sections) in four ways to load, followed by rules and queries; texts loaded into models with definitions and rules; twelve kinds of malformed texts; a failing read at every read of the file",
     "Tests load a handful of well-formed texts with the sections in the usual order; a section or matcher that is lost in another layout, or an error that is dropped, needs texts nobody wrote yet.",
     ["model/model.go", "model/handlers.go", "model/defs/defs.go", "enforcer.go"],
     [("sections and keys", "model/model.go loadModelFromConfig"), ("definitions", "model/handlers.go"), ("matchers", "Model.BuildMatchers"), ("text", "Model.String, defs String")],
     ["Model.LoadModelFromText", "Model.LoadModel", "NewModelFromFile", "NewEnforcer", "Model.String", "Enforcer.Enforce"],
     "abstract interpretation of go/ssa over layouts of texts (the ini library folded on constant texts); everything observable compared with the definitions of the text",
     "The ini library is trusted. Values with comment signs or surrounding quotes (changed by the ini library), keys that are given twice and setting a policy or role definition that has rules are not judged.")

prop("C34", "eval in a matcher stands for the expression stored in the value",
     "A matcher that calls eval(x) reports exactly the rules for which it is true with the expression that is the value of x (of the rule or of the request) in the place of the call, "
     "evaluated with the values of the same rule and the same request and the functions the model has at the time of the query. This holds for rules that share an expression or have different ones, wherever eval stands in the matcher, for every history of adding and removing rules, and for decisions. "
     "A stored expression that cannot be parsed or uses an unknown argument or function is an error of a query that needs it, never a match.",
     ["inputs", "histories"],
     "pairs of rules with thirteen stored expressions, twelve matchers with eval, all values of the other columns and of the request, all results of functions",
     "The tests have one rule with one stored expression; sharing a result between rules that store the same text, or between requests, shows only with other values.",
     ["model/matcher/matcher.go", "model/defs/matcher_def.go", "context.go"],
     [("eval", "model/matcher/matcher.go generateEvalFunction"), ("stages with eval", "model/defs/matcher_def.go HasEval"), ("tree of rules", "model/matcher/matcher.go")],
     ["Enforcer.Filter", "Enforcer.RangeMatches", "Model.RangeMatches", "Enforcer.Enforce"],
     AI + "; the specification puts the stored expression in the place of the call",
     "Two rules per policy; stored expressions are constants of a list.")

prop("C35", "Attributes of objects in a request decide the match",
     "A matcher may use attributes of the objects in a request (r.sub.Age, r.sub.Boss.Name, r.obj.Has(p.x)), and numbers and booleans: a rule is reported exactly if the matcher is true with the attributes of these very objects, in decisions, matches and expressions that rules store, also if the same object is given twice or a query with other objects was made before. "
     "Numbers of every type count as numbers, an absent value (nil) equals no text. An attribute that cannot be read (no object, no such field, wrong number of arguments, reading it panics) is an error of a query that needs it, never a match or a panic.",
     ["inputs", "configurations"],
     "all values of attributes, rules and functions for some twenty matchers and four stored expressions, two rules; fourteen ways an attribute is missing",
     "The tests read one attribute of a struct or two; a stage that is printed wrongly or an argument that is not found shows for other forms of access.",
     ["model/defs/matcher_def.go", "model/defs/defs.go", "model/matcher/matcher.go", "enforcer.go"],
     [("names of arguments", "model/defs/defs.go ReplaceArgs/findArgs"), ("printing of accessors", "model/defs/matcher_def.go tokensToExpr"), ("parameters", "model/matcher MatchParameters")],
     ["Enforcer.Enforce", "Enforcer.Filter", "Enforcer.RangeMatches", "Model.RangeMatches"],
     AI + " over requests of objects with arbitrary attributes, compared with an independent evaluation of the expression",
     "Reading fields and calling methods by reflection is the expression library's: attributes are arbitrary functions of the object. Method calls are judged only as the last operand of a condition (the library gives other positions another meaning).",
     thorough=False)

na("C91", "Indexed evaluation visits only the rules the index admits",
   "The number of rules evaluated for a request depends on the number of rules that share its indexed values, not on the size of the policy.",
   ["inputs"], "all policies", "A test measures single policies.",
   ["model/matcher/matcher.go"], [("index", "model/matcher/matcher.go")], ["Enforce"],
   "a statement about run-time cost and cardinality; static analysis can only show that the index is used, which no behaviour depends on")
na("C92", "Concurrent policy changes and decisions are linearizable",
   "Every concurrent execution of decisions and policy changes is equivalent to a sequential one.",
   ["schedules"], "all interleavings", "A test samples a few schedules.",
   ["enforcer.go", "model/policy/policy.go"], [("policy maps", "model/policy/policy.go")], ["Enforce", "AddRule"],
   "linearizability is a property of histories of interleaved operations; the code base offers no synchronisation between policy changes and decisions (users must serialise them), so there is no structural rule to decide")
