import json
P=[]
def p(id,title,statement,over,text,why,files,mechanism,state,observe,hook=False):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=m,where=files[min(i,len(files)-1)]) for i,m in enumerate(mechanism)],state=[dict(name=m,meaning=m,where='storage behind the services' if m!='goal tree' else 'request-local') for m in state],observe_at=observe,hook_needed=None)))
p("C01","Check decides exactly the set a policy expression denotes",
 "For a stored policy and relationship set, an access check answers true exactly when the subject belongs to the set denoted by the relation's expression: direct relationships (including entity-set subjects and whole-resource wildcard subjects), computed usersets and tuple-to-usersets, combined by union, intersection and difference with the grouping the policy wrote. A check against an unknown policy or an undefined starting relation is an error, never an answer. The answer depends only on the policy and on which relationships exist, not on how often or in which order subjects, branches or shared nodes are reached.",
 ["inputs","programs"],"every valid policy (expression shape and nesting), every relationship set admissible in it, every object/relation/subject triple",
 "The repository checks a handful of fixed graphs; membership is a universally quantified statement over expression shapes and graphs (notably shared nodes below intersections and differences), which fixed examples do not reach.",
 ["internal/relation_graph/searcher.go","internal/relation_graph/goal_tree.go","internal/relation_graph/rule_evaluator.go","internal/relation_graph/service.go","internal/policy/helpers.go"],
 ["Searcher.Search and its AND/OR/difference evaluation","goal tree building from relation expressions","rule evaluation of _this, computed userset, tuple to userset","goal-found predicate"],
 ["policy records","relationship edges"],["RelationGraph.Check response"])
p("C02","Checks terminate on every graph and compute the least fixed point",
 "On any relationship graph and policy, including self-references, long cycles, mutually recursive relations and deep or heavily shared nesting, a check ends with an answer. Where no subtraction takes part in a cycle that answer is least-fixed-point membership: a cycle by itself never grants access, and never hides a grant that is available on another path, whether the cycle passes through unions, intersections or the right-hand side of a difference. The answer does not depend on the order in which relationships were written.",
 ["inputs","histories"],"every cyclic or acyclic graph, every order of relationship insertion, every query",
 "Tests contain no cyclic graphs with alternative grants, and cannot enumerate insertion orders or where in a cycle the query enters.",
 ["internal/relation_graph/searcher.go","internal/relation_graph/goal_tree.go","internal/store/kv_store/node_repository.go","pkg/domain/relation_graph.go"],
 ["revisit handling of nodes during the search","successor enumeration"],["nodes visited during one request","relationship edges"],["RelationGraph.Check response","request completion"])
p("C03","Policies are isolated from each other",
 "No operation on one policy changes what any request about another policy returns: its record, its relationships with their application data and creation times, its checks, explanations, expansions, dumps, finds and deletion counts. This holds for any pair of policy ids, including ids that are prefixes of each other or contain separator characters, and when both policies hold the same relationships.",
 ["inputs","histories"],"every pair of distinct policy ids and every interleaved history of operations over them",
 "Tests use one policy per store; isolation quantifies over pairs of ids and histories.",
 ["internal/store/kv_store/kv_store.go","internal/store/kv_store/policy_repository.go","internal/store/kv_store/node_repository.go"],
 ["per-policy key prefixes","relationship data store","policy deletion"],["key-value layout"],["all service responses of the other policy"])
p("C04","Relationships form a faithful map with exact retrieval",
 "Within a policy, setting a relationship makes exactly that (object, relation, subject) tuple present with the last written application data, deleting it makes exactly that tuple absent, and the overwritten/found flags tell whether it was present before. Distinct tuples never alias, whatever characters, lengths or subject kinds they use. Get, find-all, checks and dumps always agree on which relationships exist, and read-only requests change nothing.",
 ["inputs","histories"],"every sequence of set/delete/get/find over arbitrary names, ids and subject kinds",
 "Tests exercise one or two relationships with plain names; aliasing and history effects need adversarial names and long histories.",
 ["internal/store/kv_store/policy_repository.go","internal/store/kv_store/model.go","internal/store/kv_store/mapper.go","internal/store/kv_store/node_repository.go","pkg/domain/relation_graph.go","internal/policy/service.go"],
 ["node keying","internal/public relationship mapping","edge and data stores"],["relationship edges","relationship data"],["SetRelationship/DeleteRelationship flags","GetRelationship","FindRelationshipRecords","Check"])
p("C05","A relationship is admitted iff the policy allows it",
 "Setting a relationship succeeds exactly when the policy exists, its object resource and relation are defined, its subject names a defined resource (and, for entity-set subjects, a defined relation of it), every required field is present, and the relation's subject restriction admits the subject: a universal restriction admits all, an entity restriction admits entities and wildcards of that resource only, an entity-set restriction admits only that exact resource and relation, a missing or empty restriction admits none. A rejected relationship leaves every stored policy and relationship as it was. Admission is judged by the policy currently stored, also after updates.",
 ["inputs","histories"],"every policy, restriction combination, relationship and preceding history of updates",
 "Tests try a few (restriction, subject) pairs; the decision is a product of symbol tables, restriction lists and subject kinds.",
 ["internal/policy/spec.go","internal/policy/service.go","internal/policy/types.go"],
 ["allowed-relationship and subject-restriction specifications","policy lookup table"],["policy record"],["SetRelationship success or error","state after a rejection"])
p("C06","A policy is accepted iff it is well formed",
 "Creating or updating a policy succeeds exactly when the definition is well formed: policy id and all resource and relation names present, resource names unique, relation names unique per resource, every relation has an expression which parses (or is a complete tree) and whose computed usersets and tupleset relations exist on that resource, and every subject restriction that is given is complete and refers to defined resources and relations (a relation without one is accepted and admits no subject). A rejected definition leaves the stored policies and relationships untouched. The accepted policy is returned unchanged by later reads.",
 ["inputs","programs"],"every policy definition, in every position of the defect within it, for create and update",
 "Tests submit a few malformed policies with the defect in the first resource; the predicate ranges over all positions and combinations.",
 ["internal/policy/spec.go","internal/policy/helpers.go","internal/policy/service.go","pkg/domain/policy.go","pkg/domain/relation_expression_tree.go"],
 ["valid-policy specification","expression rule collection"],["policy record"],["CreatePolicy/UpdatePolicy success or error","GetPolicy"])
p("C07","Policy lifecycle: create once, update in place, delete for good",
 "A policy id can be created only while absent and updated only while present; an update replaces definition and application data but keeps the creation time and all relationships. Deleting a policy removes it together with all its relationships and reports how many, so that recreating the id starts from an empty relationship set; deleting an unknown id reports not found and changes nothing. Get and list reflect exactly the set of live policies at every moment.",
 ["histories","inputs"],"every history of create/update/delete/get/list and relationship operations, over any ids",
 "Tests run each operation once from a fixed state; resurrection and list exactness are history properties.",
 ["internal/policy/service.go","internal/store/kv_store/policy_repository.go","internal/store/kv_store/kv_store.go"],
 ["create/update/delete policy","policy id listing"],["policy records","relationship edges and data"],["policy service responses"])
p("C08","Selectors find and delete exactly the matching relationships",
 "Finding or deleting by selector affects exactly the relationships whose object, relation and subject each match: any, a resource, or one exact entity, entity set or wildcard, where a resource subject selector matches every subject kind of that resource. The number reported equals the number removed, and everything not matching stays. The result does not depend on whether the request was built in memory or decoded from the wire, and selectors naming undefined resources or relations are rejected by find.",
 ["inputs","histories"],"every relationship set and every combination of object, relation and subject selectors",
 "Tests use a few of the 36 selector shape combinations against tiny sets.",
 ["internal/policy/selector_spec.go","internal/policy/spec.go","internal/store/kv_store/policy_repository.go","pkg/domain/selector.go","pkg/domain/relationship.go"],
 ["selector predicates","selector validation","bulk delete"],["relationship edges"],["FindRelationshipRecords","DeleteRelationships count","later finds"])
p("C09","The relation expression language has one meaning",
 "An expression is accepted exactly when it is a sentence of the documented grammar (rules `_this`, `relation`, `relation->relation`, infix + & -, parentheses, arbitrary whitespace), with identifiers being maximal runs of letters, digits and underscores. Operators share one precedence and associate to the left, and parentheses override it. Printing any expression tree and parsing the text gives the same tree back, and a policy given as text behaves like the same policy given as a tree.",
 ["inputs","programs"],"every character sequence and every expression tree",
 "Tests parse about a dozen strings; acceptance and grouping quantify over all strings.",
 ["internal/relation_expression_parser/lexer.go","internal/relation_expression_parser/parser.go","internal/relation_expression_parser/primitives.go","pkg/domain/relation_expression_tree.go","internal/policy/helpers.go"],
 ["lexer","parser combinators","expression printing"],["policy record"],["CreatePolicy success or error","Check behaviour of the parsed relation","printed expression"])
p("C10","YAML policy definitions mean the same as structured ones",
 "Creating or updating from a YAML document stores exactly the policy the document describes: id, name, documentation, attributes, every resource (also empty ones) and every relation with its expression, and the type list as restriction (`*` universal, `res` an entity, `res:rel` an entity set, an empty list admits nothing). Resources and relations come in the order of their names, whatever their order in the document. Documents with unknown fields or ill-typed content are rejected without effect. Which relationships are admitted and which checks succeed is then the same as for the equivalent structured definition.",
 ["inputs"],"every YAML policy document",
 "Tests map one document; the mapping is over all type lists, resource/relation maps and malformed documents.",
 ["pkg/policy_definition/mapper.go","pkg/policy_definition/unmarshaler.go","pkg/policy_definition/types.go","internal/policy/helpers.go"],
 ["YAML unmarshalling","definition to policy mapping"],["policy record"],["CreatePolicy record","GetPolicy","SetRelationship admission"])
p("C11","Explanations and expansions tell the truth",
 "An explained check reports the same authorization as the plain check, in every output format, names the format it used, and its tree is consistent: the root outcome is the verdict, a node shown as success is one whose subject set contains the subject, and the outcomes shown below an expanded node justify its own outcome under the relation's expression. Every node below the root gives as its reason a rule of its parent's relation which really leads to it. Expanding a node shows exactly the nodes reachable from it by the policy's rules and the stored relationships, and every reachable node that has successors is expanded somewhere, through every branch of every operator. Unsupported formats are errors.",
 ["inputs","programs"],"every policy, relationship graph, query and output format",
 "No test inspects a produced tree beyond absence of errors.",
 ["internal/relation_graph/searcher.go","internal/relation_graph/service.go","internal/relation_graph/goal_tree_serializer.go","internal/relation_graph/goal_tree.go","internal/relation_graph/types.go"],
 ["goal tree search and serialization"],["goal tree"],["ExplainCheck response","Expand response"])
p("C12","A dump shows exactly the stored relationships",
 "Dumping a policy's relationships yields a well-formed graph document whose edges between labelled nodes are exactly the stored relationships of that policy: every one appears, and none that does not exist. This holds for cyclic, shared and disconnected graphs, and the dump always completes.",
 ["inputs"],"every set of relationships, cyclic ones included",
 "Only one acyclic dump is tested, and only for absence of errors.",
 ["internal/relation_graph/walker.go","internal/relation_graph/relation_tree_serializer.go","internal/store/kv_store/node_repository.go","pkg/domain/relation_graph.go"],
 ["edge walk to a forest","DOT serialization"],["relationship edges"],["DumpRelationships response"])
p("C13","Concurrent requests are linearizable",
 "Requests issued concurrently by any number of clients return results, and leave a state, that some one-at-a-time order of the same requests explains, respecting the order of requests that do not overlap. In particular at most one of several concurrent creations of an id succeeds, a relationship never survives or reappears after its policy's deletion, and a check never mixes states before and after another request in a way no moment exhibits. Requests never block each other forever.",
 ["schedules","histories"],"every interleaving of storage accesses of concurrent requests",
 "No test is concurrent; interleavings are not controllable by unit tests.",
 ["internal/policy/service.go","internal/relation_graph/service.go","internal/store/kv_store/kv_store.go","zanzi.go"],
 ["request-level locking of read-modify-write sequences"],["policy records","relationship edges and data"],["responses of concurrent requests","final state"])
p("C14","Storage failures and crashes never corrupt or silently lose state",
 "If storage fails or the process stops at any point within a request, then after restart every policy and relationship the request did not concern is unchanged, every relationship that still grants access can be found and deleted, a deleted policy's relationships never reappear under a recreated id, and repeating the request brings the state it promises. A request during which storage reported a failure, reading or writing, returns an error rather than success.",
 ["crash_points","fault_sequences","histories"],"every request, every storage operation inside it as the failure or crash point",
 "Tests never fail the store; there is no fault injection.",
 ["internal/store/kv_store/policy_repository.go","internal/store/kv_store/kv_store.go","internal/policy/service.go"],
 ["write ordering of edge, index and data records","error propagation"],["key-value contents"],["responses and state after failure, reopen and retry"])
p("C15","State survives restart and does not depend on the backend",
 "Opening a new instance over the same storage gives the same answers to every request as the instance that wrote it; nothing acknowledged is held only in memory. The in-memory store, the on-disk store and a user-supplied ordered key-value store behave identically for every history of requests.",
 ["histories","configurations"],"every history, every point of restart, every supported backend",
 "Tests run only on the in-memory store within one instance.",
 ["zanzi.go","internal/store/kv_store/kv_store.go","internal/store/kv_store/policy_repository.go"],
 ["store construction","record encoding"],["key-value contents"],["all service responses before and after reopening"])
p("C16","No request crashes the service, and bad requests are refused",
 "For every request message, including absent or empty nested messages and unset alternatives, the service returns a response or an error and never panics, overflows or hangs. A request lacking something required to execute it (policy, definition, relationship parts, selector parts, access-request parts, root node) gets an error, and a request that got an error leaves all stored state as it was (unless storage itself failed). A request whose caller gives up is carried out entirely or not at all.",
 ["inputs","histories"],"every request message reachable through the wire format, in every state",
 "Tests send complete messages, with one exception; the space of partially filled messages is not sampled.",
 ["internal/policy/service.go","internal/policy/spec.go","internal/policy/helpers.go","internal/policy/selector_spec.go","internal/relation_graph/service.go","internal/relation_graph/rule_evaluator.go","internal/relation_graph/searcher.go"],
 ["request validation"],["all stored state"],["response or error of each request","state afterwards"])
p("C17","The network server behaves like the embedded service",
 "A request sent through the network server, by any gRPC client or by the command line client, gets the same outcome (response or error) as the same request made on the embedded service in the same state, for both services and all methods, and errors reach the client as errors. All connections of one server share one state. Messages given to or returned by the embedded service stay the caller's, as they do over the network: changing them afterwards changes neither stored state nor later answers.",
 ["inputs","histories"],"every request history sent over one or several connections",
 "The server is not tested at all.",
 ["pkg/server/server.go","cmd/zanzid/main.go","cmd/zanzi-cli/main.go","zanzi.go","internal/policy/service.go","internal/relation_graph/service.go"],
 ["service registration"],["all stored state"],["gRPC responses and status"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
