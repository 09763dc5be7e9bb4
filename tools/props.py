"""The properties (source of properties.jsonl and MANIFEST.json)."""
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(
        id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over.split(), text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(
            files=files.split(),
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=observe, hook_needed=None)))


p("C01", "One score and one verdict for a message, in every reply",
  """The score of a checked message is the sum of the effective scores of the
  rules reported as matched, and the message is spam exactly when that score is
  at least required_score.  CHECK, SYMBOLS, REPORT, REPORT_IFSPAM, PROCESS and
  HEADERS all state this same score, verdict and (where they list rules) exactly
  the matched rules, and the spam/ham dependent parts (report only if spam,
  spam or ham headers, wrapping) follow that verdict.""",
  "inputs configurations",
  """every subset of matching rules over a pool of scores, every required_score
  around the reachable sums, every command""",
  """The tests check single scores and replies with one fixed threshold; they
  do not cover ties at the threshold, negative or 4-value scores and all
  commands against each other.""",
  "oa/rules/ruleset.py oa/protocol/check.py oa/protocol/process.py oa/message.py",
  [("RuleSet.match adds the scores", "oa/rules/ruleset.py"),
   ("score compared with required_score", "oa/protocol/check.py, oa/rules/ruleset.py")],
  ["bytes of the reply", "Message.score", "Message.rules_checked"])

p("C02", "Effective score of a rule and the set of checked rules",
  """A rule scores 1.0 by default (-1.0 with tflags nice), the configured value
  with one score, and the value selected by use_bayes/use_network with four; a
  tflag net, learn, userconf or noautolearn disables the rule when the
  corresponding option (use_network, use_bayes, user_config off, autolearn on)
  says so.  Exactly the rules whose name does not start with __ and whose
  effective score is not 0 are checked and can contribute.""",
  "configurations",
  "all combinations of score form, tflags, rule name form and the four options",
  "Unit tests sample a few score lists with mocked rulesets.",
  "oa/rules/base.py oa/rules/ruleset.py",
  [("BaseRule.preprocess / should_check", "oa/rules/base.py")],
  ["rules in the reply of SYMBOLS/CHECK", "Message.score"])

p("C03", "Meta rules compute their boolean/arithmetic expression",
  """A meta rule matches exactly when its expression (&&, ||, !, parentheses,
  comparisons, + - * / with Perl precedence) is true with each referenced rule
  valued 1 if that rule matches the message and 0 otherwise, whatever the order
  of definition, the type, priority, score or __ prefix of the referenced
  rules.""",
  "configurations inputs",
  """all expressions up to a size over up to three subrules, all truth
  assignments, all definition orders and subrule kinds""",
  "Tests cover a handful of expressions with two subrules.",
  "oa/rules/meta.py oa/rules/ruleset.py",
  [("conversion of the expression", "oa/rules/meta.py"),
   ("postparsing resolves the subrules", "oa/rules/meta.py")],
  ["Message.rules_checked"])

p("C04", "A meta rule that cannot be evaluated is dropped alone",
  """A meta rule with an invalid expression, an undefined reference, or taking
  part in or depending on a circular reference is dropped when the configuration
  is loaded, and every other rule is loaded and evaluated as if the dropped
  rules were not there; in paranoid mode loading fails instead.""",
  "configurations",
  "all reference graphs over up to four meta rules and three leaf kinds, in all definition orders",
  "Tests have one undefined and one recursive example.",
  "oa/rules/meta.py oa/rules/ruleset.py",
  [("call_postparsing drops InvalidRule", "oa/rules/ruleset.py"),
   ("cycle detection", "oa/rules/meta.py")],
  ["names of the loaded rules", "Message.rules_checked"])

p("C05", "Rules run once each, by priority then definition order",
  """Apart from the evaluations a meta rule asks for, every checked rule is evaluated
  exactly once per check, in decreasing priority and, for equal priorities, in
  the order of definition; an invalid priority counts as 0.  A rule that raises an exception counts as not matched
  and changes nothing for the other rules, and a text result is the description
  of the match.""",
  "configurations fault_sequences",
  "all priority assignments over up to five rules, and every subset of rules raising",
  "Tests use one or two rules with fixed priorities.",
  "oa/rules/ruleset.py oa/rules/base.py oa/rules/eval_.py",
  [("stable sort in post_parsing", "oa/rules/ruleset.py"),
   ("match catches the exceptions", "oa/rules/ruleset.py")],
  ["order of the calls of eval functions", "Message.rules_checked"])

p("C06", "A rule definition is the last value of each of its lines",
  """The rules loaded depend only, per rule name, on the last definition, score,
  describe, priority and tflags line, wherever these lines are and however many
  files they come from (order of definition is the order of first mention);
  comments, blank lines, trailing whitespace, leading whitespace and CRLF
  line ends change nothing.""",
  "configurations",
  "all interleavings of definition and option lines of up to three rules, split at every point into files or includes",
  "Tests parse a few fixed files.",
  "oa/rules/parser.py",
  [("results merged by name", "oa/rules/parser.py")],
  ["rules, scores, descriptions and order seen from a check"])

p("C07", "A bad configuration line affects nothing but itself",
  """Unless paranoid, a line that is malformed, unknown, undecodable or has an
  invalid value (bad regex, header form, score, tflags, option value, eval call,
  plugin) is ignored together with at most the rule it defines, and all other
  lines have the effect they have without it; loading always succeeds.  In
  paranoid mode an invalid rule or line makes the loading fail.""",
  "configurations inputs",
  "every malformed line of a catalogue, and every truncation and one-character damage of valid lines, at every position of a base configuration",
  "Tests check single malformed lines with mocked contexts.",
  "oa/rules/parser.py oa/regex.py oa/rules/header.py oa/rules/eval_.py oa/conf.py oa/context.py",
  [("_paranoid and the handlers of parse_file", "oa/rules/parser.py")],
  ["ruleset behaviour with and without the line"])

p("C08", "Conditional blocks and includes select exactly their lines",
  """A line inside ifplugin has effect exactly when every enclosing ifplugin (or
  else branch) selects it: the first branch if the plugin is loaded at that
  point, the else branch otherwise; blocks nest and end at their endif or at the
  end of the file.  An include has the effect of the lines of that file at that
  place (relative paths being relative to the including file), a missing file is
  ignored, and endless inclusion is an error rather than endless work.""",
  "configurations",
  "all well formed nestings up to depth 3 and all unbalanced line sequences up to a length, with every set of loaded plugins; all include graphs up to 3 files",
  "Tests have one non-nested conditional.",
  "oa/rules/parser.py",
  [("condition stack, MAX_RECURSION", "oa/rules/parser.py")],
  ["names of the loaded rules"])

p("C09", "Options hold exactly what their configuration lines say",
  """After any sequence of configuration lines an int, float, bool, str or list
  option has the value of its last valid line (else its default), an append
  option the list of all values since its last clear, and a time value the
  number of seconds; an invalid value leaves the previous one.  This holds for
  the core and for every plugin option, and one option never changes
  another.""",
  "configurations histories",
  "all line sequences up to length 3-4 per option over valid, invalid and clear lines, for each option of the core and every plugin",
  "Tests set one or two options each.",
  "oa/conf.py oa/context.py oa/plugins/base.py",
  [("Conf.set_*_option", "oa/conf.py"), ("hook_parse_config", "oa/context.py")],
  ["option values", "behaviour they control"])

p("C10", "Rulesets loaded in one process are independent",
  """A ruleset built from a configuration behaves the same whatever other
  configurations were loaded, and messages checked with them, earlier, later or
  in between in the same process; options, network lists, DNS restrictions, tags
  and rules of one never show in another.""",
  "configurations histories",
  "all ordered pairs (and triples) of a pool of configurations, interleaved load and check orders",
  "Each test uses a fresh context and looks at one configuration.",
  "oa/conf.py oa/context.py oa/networks.py oa/rules/ruleset.py oa/plugins",
  [("per-context copies of defaults", "oa/conf.py"), ("per instance network lists", "oa/networks.py")],
  ["behaviour of each ruleset compared with a fresh process"])

p("C11", "User preferences apply to exactly their user",
  """With allow_user_rules a request naming a user with a preferences file is
  checked with the site configuration followed by that file, from every user,
  in every order and after reloads; without allow_user_rules, without such a
  file, or without a user it is checked with the site configuration alone.
  Only /home/<user>/.spamassassin/user_prefs of a single path component is ever
  used as that file, whatever the User header contains.""",
  "histories inputs",
  "all request histories up to a depth over users, reloads and preference changes; all user strings of a path catalogue",
  "Tests mock the parser and look at single calls.",
  "oa/server.py oa/config.py oa/rules/parser.py",
  [("Server.get_user_ruleset", "oa/server.py"), ("PADParser.get_state/set_state", "oa/rules/parser.py")],
  ["replies", "files opened"])

p("C12", "Requests during a reload see one whole configuration",
  """Under any interleaving of requests and reloads, each request is answered
  entirely by one configuration (site and user rules of the same generation)
  that was current at some point during the request; after a reload returned, new
  requests never see an older one, a failed reload leaves the current one in
  place, and the preforked workers reload when the parent does.""",
  "schedules histories",
  "all interleavings up to a preemption bound of request and reload threads at source line granularity",
  "Tests are sequential.",
  "oa/server.py",
  [("_lock, _reload_lock, one swap", "oa/server.py")],
  ["configuration generation seen by each request"])

p("C13", "A well-formed request gets the exact protocol reply",
  """For any message bytes, any splitting of the bytes on the wire, with or without
  Content-length or zlib compression, and with its headers in any order and
  letter case, the message checked is exactly the one sent (bytes that are not UTF-8
  left out, every kind of line break turned into a newline) and the reply is
  "SPAMD/<version> 0 EX_OK" (PONG for PING, nothing for SKIP), the verdict line and a
  Content-length that counts exactly the bytes of the body that follows.""",
  "inputs",
  "all splits of small requests, all sizes around the chunk boundaries, multi-byte text at each boundary, all commands and header permutations",
  "Tests use mocked files returning whole ASCII chunks.",
  "oa/protocol/base.py oa/protocol/check.py oa/protocol/process.py oa/protocol/noop.py oa/server.py",
  [("get_message", "oa/protocol/base.py"), ("handle", "oa/protocol/check.py")],
  ["bytes of the reply"])

p("C14", "A malformed request is refused and harms nothing",
  """Any request with a malformed first line, an unknown command, a malformed
  header, a bad Content-length or undecodable compressed data gets a single
  "SPAMD/<version> 76 Bad header line" reply, without any check or learning
  being done; a connection cut at any byte gets a complete reply for what was sent
  or a refusal.  The server keeps answering later requests as before.""",
  "inputs fault_sequences",
  "all truncations and one-byte damages of valid requests, all first lines over a token alphabet up to length 3, catalogue of header damages",
  "Tests have one bad length and one bad first line.",
  "oa/server.py oa/protocol/base.py",
  [("RequestHandler.handle", "oa/server.py"), ("InvalidOption", "oa/protocol/base.py")],
  ["bytes of the reply", "plugin calls"])

p("C15", "TELL does exactly what was asked and says so",
  """A TELL with Set makes every loaded plugin report the message as spam (plugin_report)
  or, with Message-class ham, as ham (plugin_revoke); one with Remove makes them revoke
  it.  Each does so exactly once, with exactly the message sent, and nothing else is
  done with it.  The reply has DidSet and DidRemove with exactly the targets that were
  requested and handled, and never one for an action that failed.  Without --allow-tell
  a TELL is refused with code 69 and nothing is done.""",
  "inputs histories",
  "all combinations of message class, Set and Remove target lists, header order",
  "Tests assert the hook call of three combinations.",
  "oa/protocol/tell.py oa/context.py",
  [("TellCommand.handle", "oa/protocol/tell.py"), ("hook_report / hook_revoke", "oa/context.py")],
  ["plugin calls", "bytes of the reply"])

p("C16", "The result for a message does not depend on earlier messages",
  """Checking a message with a ruleset gives the same score, rules, descriptions, report
  and rewritten message whatever other messages the process checked before,
  and checking it a second time gives the first result again (statistics that
  are meant to accumulate: Bayes, AWL excepted).""",
  "histories inputs",
  "all ordered pairs and triples of a pool of messages with all plugins loaded",
  "Every test starts from a fresh context or message.",
  "oa/context.py oa/message.py oa/plugins",
  [("per-message data (set_local)", "oa/conf.py")],
  ["score, rules, report compared with a fresh process"])

p("C17", "Lazy and non-lazy mode give the same results",
  """For every configuration and message the score, matched rules, report and
  rewritten message are the same in lazy mode and with lazy loading
  deactivated, in which compiled expressions and decoded headers are cached.""",
  "inputs configurations",
  "pool of configurations x messages x both modes, with every order of header accesses",
  "Tests run lazy only.",
  "oa/message.py oa/regex.py oa/config.py",
  [("_memoize", "oa/message.py"), ("Regex.compile", "oa/regex.py")],
  ["score, rules, report in both modes"])

p("C18", "Header rules match exactly the headers they name",
  """A header rule with =~ matches when the expression matches the value of some
  header of that name (case-insensitive, all occurrences, decoded; :raw
  undecoded, :addr and :name first address and its name, ToCc, MESSAGEID and
  ALL as documented), one with !~ when some such value does not match, and
  exists: when there is one.  The body and other headers never influence
  it.""",
  "inputs configurations",
  "all header sets up to three fields over names, cases, encodings and foldings x all rule forms",
  "Tests have one message per form.",
  "oa/rules/header.py oa/message.py",
  [("get_decoded_header and friends", "oa/message.py"), ("HeaderRule classes", "oa/rules/header.py")],
  ["Message.rules_checked"])

p("C19", "Body, rawbody, full and uri rules see the documented text",
  """For any MIME structure a body rule sees the subject followed by the decoded
  text parts with tags removed and newlines turned into spaces, rawbody the
  decoded parts as they are, full the whole message with normalised line ends, uri
  each URI of any text part and mimeheader each header of any part; non-text
  parts contribute no text, and undecodable bytes lose only themselves.""",
  "inputs",
  "all MIME trees up to depth 2 and 3 leaves x content type, encoding, charset, line ends",
  "Tests have few fixed messages.",
  "oa/message.py oa/rules/body.py oa/rules/full.py oa/rules/uri.py oa/rules/header.py",
  [("_parse_message, _iter_parts", "oa/message.py")],
  ["Message.rules_checked"])

p("C20", "A Perl regular expression keeps its meaning",
  """A rule's pattern, with any supported delimiter, the flags i s m x and the
  Perl constructs documented as translated, matches a text exactly when the
  Perl expression does (a search anywhere in the text), !~ inverts it, and a pattern
  that cannot be used is rejected when it is loaded, never while matching.""",
  "inputs configurations",
  "all patterns up to a length over an alphabet of constructs x delimiters x flags x subject strings",
  "Tests have one pattern per flag.",
  "oa/regex.py",
  [("perl2re", "oa/regex.py")],
  ["match of body and header rules"])

p("C21", "The rewritten message carries the original and the right marks",
  """PROCESS returns ham (or any message with report_safe 0) with all its headers,
  in order, and body unchanged plus exactly the configured add_header/remove_header
  changes for its class; spam with report_safe 1 or 2 becomes a multipart message
  whose first part is the report and whose attachment is exactly the message
  received.  HEADERS returns exactly the header block of the message with the
  same changes.""",
  "inputs configurations",
  "messages x report_safe x all add/remove lists up to length 3 x verdicts",
  "Tests check one header each.",
  "oa/rules/ruleset.py oa/protocol/process.py",
  [("get_adjusted_message", "oa/rules/ruleset.py")],
  ["bytes of the reply"])

p("C22", "Report templates are filled in with the values of this message",
  """Every _TAG_ of report, unsafe_report and add_header texts is replaced by the
  value of that tag for the message and configuration at hand, and all other
  characters (including % and lone _) are kept; unknown tags never fail the
  reply.  Templates keep the order and number of their lines.""",
  "configurations inputs",
  "all templates up to length 4 over text fragments, special characters and tags x messages",
  "Tests check single tags.",
  "oa/rules/ruleset.py",
  [("_convert_tags, _interpolate", "oa/rules/ruleset.py")],
  ["report text, header values"])

p("C23", "Relays are classified by the trust boundary",
  """Reading Received headers from the top, a relay is trusted (internal) as long
  as it and all relays before it are in the trusted (internal) networks or
  authenticated, private addresses being trusted when no network is
  configured, an MSA extending its class to the relays after it; everything
  after the first relay that fails is untrusted (external).  Every relay
  is in exactly one of each pair of lists and their order is kept.""",
  "inputs configurations",
  "all chains up to four relays over address classes x auth x all network configurations",
  "Tests have a few chains.",
  "oa/message.py oa/networks.py",
  [("_parse_relays", "oa/message.py")],
  ["RELAYSTRUSTED/RELAYSUNTRUSTED/RELAYSINTERNAL/RELAYSEXTERNAL tags"])

p("C24", "The envelope sender comes from the trusted side",
  """The sender used for sender checks is the envelope sender recorded by the
  first external relay, else (no external relay) by the last trusted or first
  untrusted one, else the first configured envelope_sender_header that has an
  address, and empty otherwise; headers a spammer adds below
  the boundary never override it.""",
  "inputs configurations",
  "all relay chains x recorded senders x header sets x options",
  "Tests mock the relays.",
  "oa/message.py", [("_parse_sender", "oa/message.py")],
  ["Message.sender_address", "ENVFROM based rules"])

p("C25", "Network lists contain exactly the addresses configured",
  """An address is in trusted, internal or msa networks exactly when the first
  listed network containing it is not negated; loopback is always trusted and
  internal; internal networks are also trusted, and trusted networks also
  internal while no internal network is set.  Prefix forms without mask mean the
  documented mask, IPv6 and bracketed forms included, and an invalid entry is
  ignored alone.""",
  "configurations inputs",
  "all lists up to length 3 over network forms x negation x option x clear lines, for a set of boundary addresses",
  "Tests cover single entries.",
  "oa/networks.py oa/context.py",
  [("NetworkList", "oa/networks.py")],
  ["membership tests", "relay classification"])

p("C26", "Parsing Received headers is total and loses no relay",
  """Any Received header is parsed without error or hang; for each supported MTA
  format the address, reverse name, helo, by, ident, envelope sender, id and
  authentication are the ones in the header, in the order of the headers, and a header
  which names no relay contributes none without affecting the others.""",
  "inputs",
  "format grammar with all field values, every truncation and token deletion of each supported format",
  "Tests have one example per format.",
  "oa/received_parser.py",
  [("ReceivedParser", "oa/received_parser.py")],
  ["relay tags", "Message.received_headers"])

p("C27", "DNS queries are made only when allowed",
  """The rules of the DNS blocklist, DKIM and SpamCop code of the engine never
  query a name whose closest listed parent (or itself) is denied by
  dns_query_restriction, however its case or a final dot is written; nothing at all is
  queried with dns_available no, and no blocklist with skip_rbl_checks on, while
  allowed names are; with dns_available test the answer of the test decides until
  the interval has passed.""",
  "configurations histories",
  "all restriction lists up to length 3 over a name tree x all names; all histories of test results and clock steps",
  "Tests mock the resolver with one restriction.",
  "oa/dns_interface.py oa/rules/ruleset.py oa/plugins/dns_eval.py",
  [("is_query_restricted, available", "oa/dns_interface.py")],
  ["recorded queries"])

p("C28", "DNS blocklist rules ask about the right relays and believe the answers",
  """A check_rbl family rule queries exactly the reversed addresses of the
  untrusted public relays of the message (or the domains of its sender or authors),
  never those of trusted ones, in the zone given, and matches exactly when an
  answer meets its subtest; any DNS failure means no match.""",
  "inputs configurations fault_sequences",
  "relay chains x zone sets x answers x subtests x failures",
  "Tests mock the lookups.",
  "oa/plugins/dns_eval.py oa/dns_interface.py",
  [("DNSEval", "oa/plugins/dns_eval.py")],
  ["recorded queries", "Message.rules_checked"])

p("C29", "Allow and deny lists match exactly the listed senders and hosts",
  """The whitelist/blacklist from/to rules match exactly when an address the message
  names is matched in full, ignoring case, by a listed pattern (* any text, ? one
  character, everything else literal; without @ it is of a domain). whitelist_from_rcvd
  also needs the relay listed with it (name or address; a listed sender by another relay
  is forged, unless in whitelist_allow_relays). URI host rules go by the most specific
  listed name of a URI's host. Adding an unrelated entry never changes a result.""",
  "configurations inputs",
  "all patterns of up to 3-4 symbols over an alphabet with special characters x addresses; pairs of entries in all pairs of lists; relay entries x relay chains; sets of host entries x delistings x URIs",
  "Tests match one or two addresses.",
  "oa/plugins/wlbl_eval.py",
  [("WLBLEvalPlugin", "oa/plugins/wlbl_eval.py")],
  ["Message.rules_checked"])

p("C30", "Bayes counts are exactly the learned messages",
  """After any history of learn-as-spam, learn-as-ham and forget the Bayes database holds, for
  every token, the number of currently learned spam and ham messages with it,
  and the totals of messages; learning a message twice counts once, learning
  it as the other class moves it, forgetting restores the state before.""",
  "histories",
  "every operation in every reachable database of up to 4 messages; all messages of up to 3 fragments",
  "Tests mock the store.",
  "oa/plugins/bayes.py",
  [("BayesPlugin.learn/forget, stores", "oa/plugins/bayes.py")],
  ["contents of the database tables"])

p("C31", "Bayes learning survives a crash at any database operation",
  """If learning or forgetting is cut at any database operation, repeating the operation
  afterwards leads to the same database as if it had never been
  interrupted, or else to the state before; counts never go negative.""",
  "crash_points histories",
  "every database operation of every history up to depth 2 as crash point, followed by every continuation",
  "No test interrupts an operation.",
  "oa/plugins/bayes.py", [("store transactions", "oa/plugins/bayes.py")],
  ["contents of the database tables"])

p("C32", "The auto-whitelist keeps the true history of each sender",
  """With AWL, after any sequence of checked messages the stored count and
  total of each sender (address, network and signer) are those of its messages' scores before
  adjustment, and each score is adjusted by factor times the difference
  from the sender's mean before it; other senders are untouched.""",
  "histories",
  "all message sequences up to depth 4 over senders x relays x signers x scores, both stores; interleavings of concurrent checks",
  "Tests check single updates.",
  "oa/plugins/awl.py", [("AutoWhiteListPlugin", "oa/plugins/awl.py")],
  ["awl table", "Message.score"])

p("C33", "Autolearning learns exactly the clear cases",
  """With autolearning on a message is learned as spam or as ham exactly when its
  learning score (without noautolearn, userconf and learn rules) passes the configured
  thresholds and, for spam, header and body points suffice; it never learns in
  between, nor as spam (ham) when the rules flagged learn score below -1 (above 1).""",
  "inputs configurations",
  "grid of header/body scores, tflags and thresholds around every boundary",
  "Tests mock the scores.",
  "oa/plugins/auto_learn_threshold.py",
  [("AutoLearnThreshold", "oa/plugins/auto_learn_threshold.py")],
  ["learn calls"])

p("C34", "Short circuiting stops exactly where configured",
  """When a rule with shortcircuit on, spam or ham matches, no rule after it in the
  evaluation order is evaluated and the score is the sum so far, adjusted by
  shortcircuit_spam_score or shortcircuit_ham_score for spam and ham; rules
  without it, or with off, never stop the evaluation, and the check of every
  other message is unaffected.""",
  "configurations inputs histories",
  "all assignments of modes and match results over up to four rules, with priorities",
  "Tests call the hook with mocks.",
  "oa/plugins/short_circuit.py oa/rules/ruleset.py",
  [("ShortCircuit plugin, StopProcessing", "oa/plugins/short_circuit.py")],
  ["Message.rules_checked", "Message.score"])

p("C35", "Loading and unloading plugins keeps the registry consistent",
  """After any sequence of loadplugin lines, including reloads, failing and overlapping
  plugins, exactly the successfully loaded plugins take part in hooks, each
  once; every eval function and rule type is the one of the last loaded
  plugin that defines it, and a plugin that fails to load leaves nothing
  behind.""",
  "histories fault_sequences",
  "all load/unload sequences up to depth 4 over overlapping, failing and good plugins",
  "Tests load one plugin at a time.",
  "oa/context.py oa/plugins/__init__.py",
  [("load_plugin / unload_plugin", "oa/context.py")],
  ["hook calls", "rules that load and match"])

p("C36", "Tag replacement only rewrites the listed rules",
  """With replace_rules, each <tag>, <pre>, <inter> and <post> of a listed rule is replaced by its
  configured text exactly as documented; rules not listed keep their pattern
  and undefined tags are left alone.""",
  "configurations",
  "all patterns up to three tokens over tags and literals x tag definitions",
  "Tests have one example.",
  "oa/plugins/replace_tags.py", [("ReplaceTags", "oa/plugins/replace_tags.py")],
  ["Message.rules_checked"])

p("C37", "SPF rules reflect the SPF result for the boundary relay",
  """At most one of the SPF result rules of each kind (mail from, helo) matches:
  the one named by a result recorded by an internal relay (a Received-SPF header, the oldest or as configured the newest
  one for the identity, or Authentication-Results, above the Received line of the first external relay), else by the
  SPF result for that relay's address, helo (if it is a host name) and the envelope sender; headers that the sender could have added, and
  earlier messages, never matter.  whitelist_from_spf rules match
  exactly the senders whose whole address is listed and that pass.""",
  "inputs histories fault_sequences",
  "all results x relay chains x Received-SPF headers x histories of two messages",
  "Tests patch the internals per rule.",
  "oa/plugins/spf.py", [("SpfPlugin", "oa/plugins/spf.py")],
  ["Message.rules_checked", "arguments of spf.check2"])

p("C38", "Failures of external services never break a check",
  """Whatever Pyzor, Razor, SpamCop (SMTP), SPF, DKIM or DNS do (answer, error, garbage,
  timeout, at any call), checking a message finishes, rules that
  depend on what failed do not match (also not the one for senders without any DNS record), other answers
  of the same service still count, and all other rules give
  their usual result; a report that fails at one service or server still goes to all others,
  and the match script goes on with the other messages.""",
  "fault_sequences inputs",
  "every failure mode at every call, alone and in pairs",
  "Tests have one failure each.",
  "oa/plugins/pyzor.py oa/plugins/razor2.py oa/plugins/spam_cop.py oa/plugins/spf.py oa/plugins/dkim.py oa/dns_interface.py",
  [("exception handlers of the plugins", "oa/plugins")],
  ["Message.rules_checked", "reply"])

p("C39", "Checking is total: every message gets a result",
  """Any text is accepted as a message and checked with the rules of every
  plugin loaded to a finite score and a complete report and rewritten message,
  without error; whatever a message contains, a rule that does not look at
  the damaged part gives its usual result.""",
  "inputs",
  "48 messages cut everywhere and with each line lost, repeated, exchanged or made odd; pairs of odd headers; MIME structures to depth two; encodings; markup; nesting",
  "Tests use well-formed messages.",
  "oa/message.py oa/received_parser.py oa/html_parser.py oa/plugins",
  [("exception handlers of parsing", "oa/message.py")],
  ["reply of PROCESS", "exceptions"])

p("C40", "Free-mail rules look at the right addresses",
  """check_freemail_from, _header, _body and _replyto match exactly when the address
  in the named place belongs to a listed free-mail domain (wildcards included) and is not
  whitelisted; a reply-to rule needs two different free-mail addresses.""",
  "inputs configurations",
  "all address placements over listed, unlisted and whitelisted domains",
  "Tests mock the header access.",
  "oa/plugins/free_mail.py", [("FreeMail", "oa/plugins/free_mail.py")],
  ["Message.rules_checked"])

p("C41", "uri_detail rules match one URI on all their conditions",
  """A uri_detail rule matches exactly when a single URI of the message satisfies
  all its key conditions (raw, type, scheme, cleaned, text, domain with =~ or !~), where any of the
  texts of the anchors that link it counts; score, description and flags of the rule apply as for any rule.""",
  "inputs configurations",
  "all condition sets up to three x URI lists up to two",
  "Tests match one URI.",
  "oa/plugins/uri_detail.py", [("URIDetailRule", "oa/plugins/uri_detail.py")],
  ["Message.rules_checked"])

p("C46", "The URI rules see through redirectors, disguised links and oversized links",
  """check_for_http_redirector matches exactly when some URI of the message leads on to another
  one on a different host, check_https_ip_mismatch when the text of some anchor names an https URL
  of a host and the anchor links to an IP address, and check_uri_truncated when some link is longer
  than the longest URL looked at; whatever other URIs and links the message has.""",
  "inputs",
  "all URI chains of up to three hosts, all messages of up to three links, lengths around the bound",
  "Tests have one URI each.",
  "oa/plugins/uri_eval.py oa/html_parser.py", [("check_for_http_redirector, check_https_ip_mismatch, check_uri_truncated", "oa/plugins/uri_eval.py")],
  ["Message.rules_checked"])

p("C42", "The command line and the daemon agree",
  """For the same configuration and message the match script prints the same
  report and rewritten message as the daemon's REPORT and PROCESS, whatever bytes the message
  has and however it is passed, for each of several messages independently of the others; both read the files of configuration in
  the same order (the .pre files, then the rules, then the site's files, then the user's preferences, each by name), in which the last
  one to set something wins; the script reports or revokes each message once and counts them.""",
  "inputs configurations",
  "pool of configurations x messages x options",
  "Functional tests check each side with other examples.",
  "scripts/match.py oa/protocol oa/config.py",
  [("main", "scripts/match.py")],
  ["standard output", "bytes of the reply"])

p("C43", "Rules do not influence one another",
  """Whether a rule matches a message, and its description, depend only on that rule, the
  options and the message: the result is the same when it is the only rule of the
  configuration as among all others, and whichever is evaluated first (a meta rule
  depends on the rules it names, check_rbl_sub on the rule of its zone, and a rule that
  short-circuits ends the evaluation).""",
  "inputs configurations",
  "every rule of every plugin alone, first and last, on every message of a catalogue",
  "Tests load one rule at a time, or check one order.",
  "oa/plugins oa/rules oa/message.py",
  [("match", "oa/rules/ruleset.py")],
  ["Message.rules_checked", "Message.rules_descriptions"])

p("C44", "DKIM rules reflect the verification of the signature",
  """check_dkim_signed matches when the message carries a signature of an author's domain, check_dkim_valid and
  check_dkim_valid_author_sig only when the signature verifies with the
  published key, the DKIM whitelist only when besides an author address of the signing
  domain is listed; any change to signed text, a missing or
  other key, or an unusable signature means not valid.""",
  "inputs environment",
  "signatures (valid, altered text, altered tags, other domain, none) x key records x lists",
  "Tests mock the dkim library.",
  "oa/plugins/dkim.py", [("check_dkim_signature", "oa/plugins/dkim.py")],
  ["Message.rules_checked"])

p("C45", "Bayes classifies by the tokens it has learned",
  """When at least bayes_min_spam_num and bayes_min_ham_num messages are learned,
  a message's Bayes score is the chi-squared combination of its 150 most
  significant tokens by their stored counts, and check_bayes matches exactly when the
  score lies in its band (lower edge excluded unless zero). Tokens seen once do not count with
  bayes_use_hapaxes off. There is no score while use_bayes, use_learner or
  use_bayes_rules is off, or for messages from or to an address on bayes_ignore_from or bayes_ignore_to.""",
  "inputs configurations histories",
  "all ways to learn 4 messages x 8 messages; grids of stored counts; mixtures of 140 to 400 tokens; all switches; address patterns",
  "Tests mock the store and the tokens.",
  "oa/plugins/bayes.py", [("BayesPlugin.check_bayes, scan, combine", "oa/plugins/bayes.py")],
  ["Message.rules_checked", "the BAYES tag"])

p("C47", "The relay rules judge the relays beyond the trust boundary",
  """check_for_numeric_helo matches exactly when some untrusted relay said HELO with a public IPv4
address, helo_ip_mismatch when such an address is of another /24 network than the relay's own,
check_for_forged_received_ip_helo when it is of another /16 network (at a receiver with a qualified name),
check_for_no_rdns_dotcom_helo when the earliest untrusted relay at a public address said HELO as a large provider
and has no reverse name, check_for_sender_no_reverse when the earliest untrusted relay is at a public address and
has a qualified reverse name, check_for_forged_received_trail when at least twice the domain of the host that received from an untrusted relay is not
the (qualified) reverse name of the untrusted relay above it (hotmail.com and msn.com aside),
check_for_from_domain_in_received_headers, for a sender in exactly that domain, when some relay has both its reverse name and
its receiver in the domain if asked for "true", and when no relay has if asked for "false";
check_all_trusted and check_no_relays when all relays, at least one, are trusted, and when there are none.""",
  "inputs",
  "all relays of a product of addresses and names, all pairs and triples of pools, all senders, histories of two messages",
  "Tests give one or two relays to each rule.",
  "oa/plugins/relay_eval.py", [("RelayEval", "oa/plugins/relay_eval.py")],
  ["Message.rules_checked"])

p("C48", "The date rules compare the instants the headers name",
  """The time of a message is that of the first valid Resent-Date, or else of the first valid Date, each an instant
whatever its time zone and that of the host. check_for_shifted_date(min, max) matches exactly when the message's time minus that of the
Received header nearest to it, but not the same (0 if there is none, or no time of the message) is at least min hours and less than max, so a Date earlier than the Received
ones counts as negative; received_within_months(min, max) when the median of the Received times and the message's (the earlier of the two middle ones)
is at least min and less than max whole months ago, never for a message without any time; "undef" is no bound
and 0 is one; absent and broken dates, earlier messages and the order of the rules change nothing.""",
  "inputs",
  "one second around every bound, all pairs of seven zones, up to three Received dates, all combinations of absent, broken and repeated dates, ages up to 30 months",
  "Tests set the parsed times, or use one zone.",
  "oa/plugins/header_eval.py", [("check_for_shifted_date, received_within_months, _get_date_header_time", "oa/plugins/header_eval.py")],
  ["Message.rules_checked"])

p("C49", "The MIME rules describe the parts of the message",
  """check_for_mime and its relatives tell what the tree of MIME parts has, however the parts are nested and ordered: parts of HTML, HTML and no plain text,
plain text, multipart/alternative, base64 and quoted-printable parts (in any case), and
a part of a multipart/alternative that is not text (multipart/related and application/rtf are left open); the ratios are those of the characters of all decoded plain text to all HTML (1 without either),
of quoted printable ASCII characters (other than "=3D") to the length of the encoded parts and of &#xHHHH; entities to the plain text, the base64 length that of the longest encoded line, and the bounds
of a rule are inclusive (the upper one of check_mime_multipart_ratio is not); check_msg_parse_flags tells parts without headers, an epilogue, and header names over 256 or values over 8192 characters;
check_for_faraway_charset a part in a charset foreign to ok_locales with at least as many non-ASCII bytes as ASCII ones and more than three.""",
  "inputs",
  "all trees of up to two parts of 24 kinds, nested containers, all texts of up to four pieces, all sizes around the bounds",
  "Tests have one sample for each rule.",
  "oa/plugins/mime_eval.py", [("MIMEEval", "oa/plugins/mime_eval.py")],
  ["Message.rules_checked"])

p("C50", "The image rules describe the images of the message",
  """For the image parts of a message, all or of one type, image_count matches exactly when their number is within the bounds (inclusive, 0 included),
pixel_coverage when the sum of their areas is, image_size_exact(type, height, width) and image_size_range(type, min height, min width, max height, max width) when some image
has such a size, image_named and image_name_regex when some image has (is matched by) the name in its Content-Type, and image_to_text_ratio when the length of the text
(the body or raw body the rule is for) divided by the coverage is; images that cannot be read, or are too large to be, count but have no size; a repeated image counts and covers again.""",
  "inputs",
  "all lists of up to three images of a pool, sizes and text lengths around all bounds, names, histories",
  "Tests give one image to each rule.",
  "oa/plugins/image_info.py", [("ImageInfoPlugin", "oa/plugins/image_info.py")],
  ["Message.rules_checked"])

p("C51", "The body rules compare and count the words and lines of the message",
  """multipart_alternative_difference matches exactly when the percentage of the different words of the HTML alternatives (direct parts of a multipart/alternative) that are not at least
as often in the plain ones is within its bounds (0 without HTML words), multipart_alternative_difference_count when there are at least so many different
HTML words and the number of different plain words divided by theirs is above the ratio, check_blank_line_ratio when the raw body has at least so many lines (one, if not said)
and the percentage of blank ones is within the bounds, tvd_vertical_words when the percentage of white space to other characters of the text
the rule is for is, and check_stock_info when that text has at least so many words of the stock market; bounds are inclusive.""",
  "inputs",
  "all pairs of texts of up to three words, all texts of up to seven pieces, all pairs of words, histories",
  "Tests have one sample for each rule.",
  "oa/plugins/body_eval.py", [("BodyEval", "oa/plugins/body_eval.py")],
  ["Message.rules_checked"])

p("C52", "The header rules judge subjects, recipients and identifiers",
  """subject_is_all_caps matches exactly when the decoded subject, without one leading Re:, Fwd:, Fw:, Aw:, Antwort: or Sv:, has at least ten characters, two words and a letter, and no small ones;
check_for_to_in_subject when an address of To (in any case), or its user (as the whole subject, answered, followed by a mark at the end, or by one and a space at the start), is in the subject;
check_illegal_chars when so many characters of the header as sent (ALL: of all but Subject and From), and such a part of them, are not ASCII or are control characters, one ¢, £ or ® that is alone in a Subject exempt;
sorted_recipients when the addresses of To, Cc and Bcc, in that order, are sorted; similar_recipients when the similarities (same first five characters; different hosts with the same first two) per pair of them,
neighbours that repeat taken once (0 for fewer than five), are between the bounds, "undef" none; check_header_count_range when the number of different values of a header is; check_unresolved_template when a header,
folded or not and never the body, other than subjects, senders, recipients and identifiers has a placeholder; check_ratware_name_id when the quoted author's address is the rest of such an identifier;
check_for_missing_to_header without To and Apparently-To. Earlier messages and the order of the rules change nothing.""",
  "inputs",
  "all subjects of up to three pieces, texts of up to four characters, lists of up to six recipients in every split, all placeholders by header and folding, all pairs of identifiers",
  "Tests have one or two samples for each rule.",
  "oa/plugins/header_eval.py", [("HeaderEval", "oa/plugins/header_eval.py")],
  ["Message.rules_checked"])
