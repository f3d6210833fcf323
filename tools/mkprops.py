#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements are edited in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

R="pkg/renderables/"; H="pkg/hydratables/"; S="pkg/serializables/"

p("C01","Serving requests concurrently is free of data races",
  "Serving any mix of concurrent requests - catalogs, networks, single facts, source documents; cold or already cached; for the same folder or different ones, with or without inline documents - never performs two conflicting unsynchronised accesses to shared memory. The same holds for creating folders while requests are served.",
  ["schedules","inputs"],"every interleaving of concurrent requests and of the goroutines that discover, load and render one filing; every filing",
  "The existing tests issue one call at a time, without the race detector, on six fixed filings; a race changes nothing they look at.",
  ["pkg/cache/cache.go",S+"folder.go",S+"document.go",H+"document.go",H+"global.go",R+"renderable.go"],
  [("read-write lock around the shared cache","pkg/cache/cache.go"),("per-folder write lock during discovery",S+"folder.go"),("wait groups joining the grid builders",R+"renderable.go")],
  observe=["HTTP handler of the server","race detector reports"])
p("C02","A response is always the answer to its own request",
  "Whatever was requested before or is being requested at the same time, a successful response carries the content a freshly started server would give for exactly that request against the same files. An answer computed for one folder, network, document or fact is never served for a different one, whatever characters the identifiers contain.",
  ["histories","schedules","inputs"],"every sequence and interleaving of requests; every combination of identifiers, including ones built to look alike",
  "No existing test goes through the cache or the router at all; they call the renderer directly, once.",
  ["pkg/cache/cache.go","internal/web/web.go",H+"global.go"],
  [("cache keys derived from folder id, network hash, fact name and context","pkg/cache/cache.go"),("shared store for folders and global taxonomy data",H+"global.go")],
  state=[("application cache","computed answers by key","pkg/cache/cache.go")],
  observe=["HTTP responses (status, body)"])
p("C03","A request that fails keeps failing until its cause is removed, then succeeds",
  "A request for a folder, network or source document that has not been served before is answered with an error status every time it is made while the folder does not exist or its entry description, instance, source document or the unit registry is missing or unreadable, never with a success and an empty or partial body. Once the file has been put right, the same request succeeds and carries the correct content without restarting the server.",
  ["histories","fault_sequences"],"every order of failing and succeeding requests; each of these files missing, empty, truncated or malformed, and repaired, in any order",
  "The tests never repeat a failing request and never repair a folder between two requests.",
  ["pkg/cache/cache.go",H+"hydratable.go",H+"global.go",S+"folder.go",S+"global.go"],
  [("results stored only when complete","pkg/cache/cache.go"),("errors returned by discovery and loading",S+"folder.go")],
  observe=["HTTP responses over a history of faults and repairs"])
p("C04","No filing and no request can take the server down",
  "No request, and no content of a filing folder or taxonomy file - dangling references, circular includes or arcs, missing elements or attributes, undeclared prefixes, malformed or hostile markup - terminates the process, makes a request wait forever, or exhausts memory. The request concerned gets a response, and other folders are served correctly afterwards.",
  ["inputs","fault_sequences","histories"],"every mutation of a well-formed filing and every request against it, followed by requests to healthy folders",
  "Work happens in goroutines whose panics no caller can recover, so one unusual file ends the process; the tests contain only a handful of well-formed filings.",
  [S+"folder.go",S+"document.go",H+"instance.go",H+"document.go",R+"contexts.go",R+"expressable.go",R+"textBlock.go","pkg/attr/name.go","pkg/cache/cache.go",H+"global.go"],
  [("nil and length guards on decoded markup",H+"instance.go"),("locks released on every path","pkg/cache/cache.go")],
  observe=["process exit status","HTTP responses of healthy folders after the faulty one"])
p("C05","The same files always give byte-identical answers",
  "For unchanged files, every catalog, network and single-fact answer is byte-for-byte the same each time it is computed: across repeated computations, process restarts, goroutine schedules and hash-map iteration orders.",
  ["schedules","inputs","histories"],"every re-computation of every answer of every filing, in any process",
  "The tests compute each answer once and look at a few fields; an order that varies between runs passes them.",
  [R+"renderable.go",R+"factualQuadrant.go",R+"labelPack.go",R+"calculationGrid.go",R+"effectiveDomainGrid.go",R+"dimensionRelationshipSet.go",S+"folder.go"],
  [("explicit sorting of contexts, roles, entities and nodes",R+"contexts.go"),("ordered iteration over linkbases",R+"utility.go")],
  observe=["HTTP response bodies from several processes"])
p("C06","Every reported fact is shown in exactly its own cell",
  "In every grid of a network (presentation, each dimensional line-item group, each calculation), the columns are exactly the contexts of the selected entity that report at least one of the grid's non-abstract concepts, each appearing once. The cell of a row and a column shows the value reported for that row's concept in that column's context, and is blank when none was reported.",
  ["inputs"],"every filing: any number of entities, contexts, facts, networks, repeated concepts and concepts from several taxonomies",
  "Two filings and a few hand-picked cells are looked at; shifting, dropping or duplicating columns or rows elsewhere goes unnoticed.",
  [R+"contexts.go",R+"factualQuadrant.go",R+"presentationGrid.go",R+"effectiveDomainGrid.go",R+"calculationGrid.go",H+"fact.go"],
  [("selection of relevant contexts per entity and rows",R+"contexts.go"),("fact lookup by concept and context",H+"fact.go")],
  observe=["network responses of the HTTP API compared with the facts written into the filing"])
p("C07","Each column is headed by its own context's period and dimension members",
  "The period caption and the dimension members (explicit and typed, from the segment and from the scenario, each under its own dimension heading) shown for a column are exactly those of the context whose facts the column holds: none is missing, added, or shown under another heading. Columns are ordered by period, and within a period undimensioned columns come before dimensioned ones.",
  ["inputs"],"every combination of periods, segments and scenarios with any number of explicit and typed members",
  "No test looks at member cells or at typed or scenario members.",
  [R+"contexts.go",R+"contextualQuadrant.go",R+"typedMember.go",H+"instance.go"],
  [("member grid and heading quadrant built from the contexts' members",R+"contextualQuadrant.go"),("context ordering",R+"contexts.go")],
  observe=["period headers, heading and member cells of network responses"])
p("C08","Displayed numbers keep the reported value",
  "A numeric fact is displayed so that reading it back (dropping the grouping of digits in threes, unit text and the percent sign, and taking parentheses as negative) gives the reported value, or one hundred times it for percentages; digits may be dropped only beyond both the second decimal place and the fact's stated precision. This holds for every sign, magnitude, stated precision and display language, and for numbers other than percentages the digits marked significant end at the stated precision when the number reaches that far.",
  ["inputs"],"every decimal value, every precision from trillions to billionths and exact, both digit groupings, plain and percentage concepts",
  "One displayed number of one filing is asserted; grouping, rounding, sign and percentage scaling over other values are not reached.",
  [R+"fact.go",R+"english.go",R+"spanish.go",H+"precision.go"],
  [("split of a number into significant and insignificant digits",R+"fact.go")],
  observe=["cell expressions of network responses"])
p("C09","Displayed numbers carry the unit they were reported in",
  "A numeric fact is shown with the symbol, or failing that the name, that the unit registry gives for the measure of the fact's own unit, the denominator of a ratio unit included; a measure not in the registry is never shown as some other unit. Currency symbols precede the number and names follow it.",
  ["inputs","configurations"],"every unit definition (single measure, ratio, unregistered, same local name in several namespaces), every registry content",
  "A single fact with unit pure is asserted.",
  [H+"measurement.go",H+"instance.go",R+"english.go",R+"spanish.go"],
  [("registry lookup by namespace and local name",H+"measurement.go"),("unit placement",R+"english.go")],
  observe=["cell expressions of network responses"])
p("C10","Presentation rows follow the network's tree order and depth",
  "The rows of a presentation grid are a depth-first walk of the role's parent-child arcs: every arc contributes its target exactly once, directly below its parent's subtree position with indentation one deeper, and siblings appear in ascending order of their arcs' order values. Arcs of other roles or arc kinds contribute nothing, however the role's arcs are spread over the extended links of its file and whatever their document order.",
  ["inputs"],"every forest of concepts, any order values, any placement and document order of arcs and locators",
  "One tree whose document order coincides with its order values is looked at.",
  [R+"presentationGrid.go","internal/graph/graph.go",H+"presentationLinkbase.go",R+"concepts.go"],
  [("tree building from arcs","internal/graph/graph.go"),("depth-first walk",R+"presentationGrid.go")],
  observe=["row hrefs and indentation of network responses"])
p("C11","Calculation networks show every contribution with its sign, weight and order",
  "For every concept with summation arcs in the role there is exactly one calculation grid, whose contributing items are the targets of its arcs in ascending order with the arc's sign and absolute weight, their own balance type, and a flag telling whether they are themselves sums; the total and its balance type are those of the source concept. No other concept gets one.",
  ["inputs"],"every set of summation arcs, weights and orders, nested sums, several extended links of one role, several calculation files for different roles",
  "No test looks at a calculation grid.",
  [R+"calculationGrid.go",H+"calculationLinkbase.go"],
  [("grouping of summation arcs by source",R+"calculationGrid.go")],
  observe=["calculation grids of network responses"])
p("C12","Dimensional structure is shown as declared",
  "For every role, the relationship graph lists each dimensional arc once, with its endpoints, kind and attributes (order, closed, usable, context element, target role) as declared, and each endpoint as a node. Every line-item tree that is not a dimension's domain is shown with its items in declared order and depth; for an item that declares a hypercube, each of its dimensions lists its default and the members of that dimension's own domain, exclusions struck through, and nothing else.",
  ["inputs"],"every definition network: several hypercubes, dimensions with and without domain or default, nested members, excluded hypercubes, several definition files",
  "One test asserts the root line items of one role and another the four members of a single-dimension role; attributes and multi-dimension roles are not looked at.",
  [R+"effectiveDomainGrid.go",R+"dimensionRelationshipSet.go",H+"definitionLinkbase.go"],
  [("effective domain computation",R+"effectiveDomainGrid.go"),("relationship graph",R+"dimensionRelationshipSet.go")],
  observe=["dimensional grids and relationship graph of network responses"])
p("C13","Labels are those the linkbases attach to the concept",
  "Every label shown for a concept, dimension or member is exactly the text the label linkbases attach to that concept for that role (standard, terse, verbose) and language (English with or without the US region, Spanish); none is missing, taken from another concept, or mixed between roles and languages. The languages and label roles a network announces cover every label shown on its rows and columns.",
  ["inputs"],"every assignment of label resources over links, files, roles and languages, shared resources and repeated locators",
  "A few US-English standard labels are asserted.",
  [R+"label.go",R+"labelPack.go",H+"labelLinkbase.go"],
  [("label lookup through locators and arcs",R+"label.go"),("merge of languages",R+"labelPack.go")],
  observe=["label packs, Lang and LabelRoles of network responses"])
p("C14","Footnote marks lead to the footnotes attached to the fact",
  "For every cell, following its footnote numbers into the grid's footnote list gives exactly the footnotes the filing attaches to the fact in that cell, each once; every listed footnote is used by some cell and listed once. The answer for a single fact lists the same footnotes.",
  ["inputs"],"every set of footnote links, arcs and locators: many footnotes per fact, shared footnotes, several extended links with overlapping labels, links without arcs",
  "The only test with footnotes has one footnote and crashes at this commit; with one footnote any numbering is right.",
  [H+"fact.go",H+"instance.go",R+"factualQuadrant.go",R+"expressable.go"],
  [("footnote resolution for a fact",H+"fact.go"),("footnote numbering of a grid",R+"factualQuadrant.go")],
  observe=["FootnoteGrid and Footnotes of network responses","fact responses"])
p("C15","Text blocks are reduced to inert markup without losing text",
  "The markup shown for a text-block fact contains only table, row, cell and line-break elements without attributes, whatever the fact contains - including scripts, event handlers and doubly escaped markup, which come out as text. All visible text of the fact appears in it, in order, each table cell's text in a cell of its own row.",
  ["inputs"],"every text-block content: nested and malformed markup, entities at any escaping depth, column spans of any size",
  "One narrative fact is rendered by a test that looks only at whether a field is filled.",
  [R+"textBlock.go"],
  [("token filter and escaping",R+"textBlock.go")],
  observe=["InnerHtml of cells, parsed by an independent HTML parser"])
p("C16","The catalog lists every network once and every listed address works",
  "The catalog of a folder lists each reporting entity (with its registered name when there is one) and each role declared by the folder's schemas exactly once, roles ordered by title, and gives for every entity and role an address. Requesting that address yields that entity, that role and its title; different entity-role pairs have different addresses; and an address the catalog does not list is an error.",
  ["inputs","configurations"],"every set of entities, roles and titles over any number of schemas; with and without the register of names",
  "Two catalogs are compared as golden text; no address from a catalog is followed.",
  [R+"catalog.go",R+"relationshipSet.go",R+"contexts.go",R+"renderable.go",H+"query.go"],
  [("content-derived addresses",R+"catalog.go"),("search for the addressed pair",R+"renderable.go")],
  observe=["catalog and network responses"])
p("C17","Discovery loads exactly the reachable taxonomy and always ends",
  "Loading a folder yields exactly the local schemas and linkbases reachable from the instance's schema references through includes, imports and linkbase references, each once and filed under its own kind; files not reachable play no part. This holds for any shape of the reference graph, including shared targets and cycles, and loading always ends.",
  ["inputs","schedules"],"every finite reference graph among files, any interleaving of the concurrent traversal",
  "The tests load acyclic two-level filings.",
  [S+"folder.go",S+"schemaFile.go",S+"instanceFile.go"],
  [("concurrent traversal under a folder lock",S+"folder.go")],
  observe=["contents of the loaded folder value","catalog of the folder"])
p("C18","Creating a folder happens once per key and is readable afterwards",
  "Of any number of concurrent or repeated attempts to create a folder under the same key, exactly one succeeds; the others report that it exists and name the same folder, whose entry stays what the successful attempt recorded. Different keys give different folders, an empty key always gives a new one, and a created folder's entry file name reads back exactly.",
  ["schedules","histories","inputs"],"every interleaving of creations over every set of keys and entry names",
  "Nothing in the tests creates a folder.",
  [S+"underscore.go"],
  [("exclusive directory creation, name-based identifiers",S+"underscore.go")],
  observe=["return values of folder creation","entry lookup","directory contents"])
p("C19","Filings cannot reach files outside their folder and the taxonomy store",
  "Whatever paths and addresses a filing's documents or a request's folder name contain, the content loaded for a folder comes only from files inside that folder and inside the global taxonomy store. A taxonomy address always maps to a file inside the store, under its own host, and addresses with different hosts or different normalised paths map to different files.",
  ["inputs"],"every relative path, absolute path and URL a filing or request may contain, including dot segments and encoded separators",
  "No test contains a path leaving the folder.",
  [S+"folder.go",S+"global.go",S+"underscore.go"],
  [("joining of references to the folder directory",S+"folder.go"),("address to file mapping",S+"global.go")],
  observe=["loaded folder value","mapped file names","responses (canary content never appears)"])
p("C20","Looking a concept up by name and by address agree with its declaration",
  "For every concept declared by a reachable local schema or an available global taxonomy that one of them imports, looking it up by namespace and name gives its address, and looking that address up gives back the namespace and the concept with its type, balance, period type, abstract and nillable flags and typed domain as declared. Names and addresses that are not declared are never resolved to a concept.",
  ["inputs"],"every schema set: own, imported, included and global schemas, same local names in several namespaces",
  "Two lookups of one concept are tested.",
  [H+"query.go",H+"schema.go",H+"global.go","pkg/attr/attr.go"],
  [("lookup by namespace and by fragment",H+"query.go")],
  observe=["lookup results of the loaded filing"])
p("C21","Loading an instance preserves every context, unit, fact and footnote",
  "After loading, every well-formed context, unit, fact and footnote of the instance is present exactly once with its identifier, entity, period, members, measures, concept, precision, nil flag and content exactly as reported, and nothing else is present.",
  ["inputs"],"every instance document: any prefixes, attribute order, optional parts, whitespace around names and dates",
  "Loading is asserted on counts and a few fields of two filings.",
  [H+"instance.go",S+"instanceFile.go","pkg/attr/attr.go"],
  [("hydration of decoded markup",H+"instance.go")],
  observe=["loaded instance value"])
p("C22","The source document is served unchanged except for embedded pictures",
  "Requesting a folder's inline source document returns it byte for byte when the folder holds no pictures. Otherwise every picture reference that names a JPEG or PNG file of the folder is replaced by that file's exact content as a data address, and all other elements, attributes and text are unchanged.",
  ["inputs"],"every document and every set of picture and non-picture files",
  "Two fixed documents are asserted on the length of the result.",
  [S+"image.go",S+"folder.go",S+"document.go","pkg/cache/cache.go"],
  [("detection of pictures by content",S+"folder.go"),("rewriting of picture sources",S+"image.go")],
  observe=["document responses parsed by an independent HTML parser"])
p("C23","A single-fact answer agrees with the fact in the filing",
  "Asking for the fact tagged with a name and context in the inline document returns the concept's address and labels, the context's own period and dimension members, and the same displayed value and footnotes as the network grids show for that concept and context. Names or contexts that the document does not tag, or that have no such fact, give an empty answer or an error and never another fact.",
  ["inputs"],"every pair of name and context over every inline filing, with any dimensional context",
  "Three facts of two filings are asserted, none with typed or several members.",
  [R+"expressable.go",H+"document.go",R+"contextualQuadrant.go"],
  [("resolution of the tagged name and context",R+"expressable.go")],
  observe=["fact responses","network responses"])
p("C24","The HTTP interface answers with the documented status, type and routes",
  "Only GET is accepted on folder routes; a known folder, network, fact or document is answered 200, JSON answers (empty when there is no such fact) being declared as JSON and inline documents never; unknown or unloadable ones are answered with an error status and a message. Percent-encoded path and query parameters are decoded before they are looked up.",
  ["inputs","histories"],"every method, path and query string",
  "No test issues an HTTP request.",
  ["internal/web/web.go"],
  [("router and handlers","internal/web/web.go")],
  observe=["HTTP responses over a loopback connection"])
p("C25","Period captions state the right dates and number of months",
  "For every language a network announces, each column's caption names the end date of its context's period in that language, and for a duration ending at least thirty days after its start also the number of months it covers; shorter or unparseable periods show the raw period. Durations of n whole calendar months read n months, and 52- or 53-week years and 13-week quarters read 12 and 3 months.",
  ["inputs"],"every instant and duration, leap years, year boundaries, both languages",
  "Two English captions are asserted, in tests that cannot run here.",
  [R+"formatPeriod.go",R+"english.go",R+"spanish.go"],
  [("month counting and date formatting",R+"formatPeriod.go")],
  observe=["period headers of network responses and fact responses"])
p("C26","The order of declarations in the files does not matter",
  "Rewriting a filing's files with the same declarations in a different order - facts, contexts, units, locators, arcs, labels, roles, elements, references, attributes - and with different whitespace leaves every catalog, network and single-fact answer the same up to the order of items the files themselves leave unordered (unconnected trees, tied columns, relationship lists, dimensions of one item, footnote numbering, lists of languages and label roles).",
  ["inputs"],"every permutation of sibling declarations of every filing",
  "Each test filing exists in one order only.",
  [R+"contexts.go",R+"contextualQuadrant.go","internal/graph/graph.go",H+"instance.go",R+"label.go"],
  [("sorting of what is displayed",R+"contexts.go"),("tree building from arcs","internal/graph/graph.go")],
  observe=["responses for the original and the rewritten filing"])
p("C27","The choice of namespace prefixes does not matter",
  "Renaming the namespace prefixes of a filing's documents, including ones that clash with conventional prefixes or bind one namespace twice, leaves every catalog and network answer the same.",
  ["inputs"],"every consistent renaming of prefixes in instance, schema and linkbase documents",
  "Each test filing uses conventional prefixes.",
  ["pkg/attr/attr.go",H+"instance.go",H+"schema.go",S+"instanceFile.go"],
  [("resolution of qualified names","pkg/attr/attr.go")],
  observe=["responses for the original and the rewritten filing"])
p("C28","Canonical names are equal exactly when the expanded names are",
  "For any set of namespace declarations, the canonical name given to a name with a declared prefix, or to a declared namespace and a local name, is the same for equal expanded names and different for different ones, and the expanded name of a prefixed name is the declared namespace with the unchanged local part. Conventional namespaces always get their conventional prefixes.",
  ["inputs"],"every set of prefix declarations, including clashes with conventional and generated prefixes",
  "One set of declarations is tested.",
  ["pkg/attr/name.go"],
  [("assignment of canonical prefixes","pkg/attr/name.go")],
  observe=["results of the name provider"])
p("C29","The encoding and spelling of the files do not matter",
  "Rewriting a filing's files in another declared single-byte encoding or in UTF-8 with or without a byte order mark or declaration, with characters written literally, as character references or in character data sections, and with either kind of quotes, leaves every catalog, network and single-fact answer the same.",
  ["inputs"],"every encoding and lexical form of instance, schema, linkbase and inline documents that can express the same content",
  "Each test filing exists in one encoding only.",
  [S+"instanceFile.go",S+"schemaFile.go",S+"labelLinkbaseFile.go",S+"presentationLinkbaseFile.go",S+"definitionLinkbaseFile.go",S+"calculationLinkbaseFile.go",S+"document.go"],
  [("decoding of each kind of file",S+"instanceFile.go")],
  observe=["responses for the original and the rewritten filing"])
p("C30","Other addresses serve the bundled pages and nothing else",
  "Every address outside the folder routes is answered with the exact content of the file at that path in the concept network browser's directory below the current directory, or with an error status when there is none. No path, however written or encoded, reaches a file outside that directory.",
  ["inputs","histories"],"every tree of pages, every way of writing and encoding a path, files added, changed and removed while the server runs",
  "The tests make no HTTP request.",
  ["internal/web/web.go"],
  [("route of everything that is not a folder","internal/web/web.go")],
  observe=["responses","content of files placed outside the directory"])
p("C31","Answering requests leaves nothing behind",
  "However often requests of any kind are made, successful or failing, the numbers of goroutines and of open files do not keep growing once the requests have been answered. Answering requests creates, changes and removes no file in the working directory and the taxonomy store.",
  ["inputs","histories","fault_sequences"],"every history of requests for whole and broken folders, documents, networks and facts",
  "The tests end after a few calls and look at no resource.",
  [S+"document.go",S+"folder.go",S+"instanceFile.go",S+"global.go","pkg/cache/cache.go"],
  [("goroutines that read an inline document",S+"document.go"),("goroutines that load a folder",S+"folder.go"),("goroutines that fill the cache","pkg/cache/cache.go")],
  observe=["goroutine stacks","open files of the process","files below both directories"])
p("C32","The program serves the configured stores and stops cleanly",
  "The program serves the folders of the working directory and taxonomy store below the directories named by its environment, or below the current directory when it names none, whether or not they exist when it starts. An interrupt lets requests in progress finish with their answer, refuses new ones and ends the program with status 0.",
  ["configurations","histories","schedules"],"every setting of the environment, stores that come to exist while the program runs, interrupts before, during and after requests",
  "No test runs the program.",
  ["cmd/telefacts/main.go"],
  [("settings of the server","cmd/telefacts/main.go"),("shutdown","cmd/telefacts/main.go")],
  observe=["responses over sockets","exit status of the program"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
