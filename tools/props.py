#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays readable)."""
import json, os
R = "crates/node-maintainer/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m) for n, m in (state or [])],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))

p("C01", "Every dependency resolves to the right package, in every answer order",
  "Whenever resolution succeeds, every production and optional dependency of every package in the tree (and also the project's own dev dependencies) is found by Node's lookup rule from that package's location, and what is found there is the package the requirement names (the real package behind an alias) at a version the requirement allows. This holds whatever order the registry answers in and whatever the concurrency limit is.",
  ["schedules", "inputs"],
  "All dependency graphs (aliases, scopes, cycles, conflicting ranges, prereleases, tags), all orders in which metadata responses arrive, all concurrency limits.",
  "The tests resolve a handful of fixed example manifests, each with one mock-server answer order; conflicts between an alias and a real package, or a late answer that shadows an earlier placement, never occur in them.",
  [R+"resolver.rs", R+"graph.rs", "crates/nassun/src/resolver.rs"],
  [("run_resolver / satisfy_dependency / place_child", R+"resolver.rs"), ("PackageResolution::satisfies", "crates/nassun/src/resolver.rs")],
  ["NodeMaintainer::to_lockfile / package_at_path after resolve_manifest"],
  [("Graph", "dependency edges plus the logical node_modules hierarchy")])

p("C02", "The tree is complete, minimal, hoisted, unambiguous, and always reached",
  "Resolution always terminates, including on cyclic dependency graphs, and fails only if some needed requirement cannot be met from the registry (or if every layout of a cyclic graph would have to be nested without end). The resulting tree holds nothing that no dependent needs and never two packages at one location, and no package sits lower than necessary: moving any package up one level would collide with, or change what is found by, something else in the tree.",
  ["schedules", "inputs"],
  "All dependency graphs including cyclic ones, all response orders and concurrency limits.",
  "Only example trees are compared with snapshots; no test has cyclic dependencies under different answer orders or checks leftovers/hoisting as a rule.",
  [R+"resolver.rs", R+"graph.rs"],
  [("work queue and in-flight count", R+"resolver.rs"), ("place_child hoisting walk", R+"resolver.rs")],
  ["NodeMaintainer::to_lockfile after resolve_manifest"],
  [("queue / in_flight", "packages still to be expanded and metadata requests not yet answered")])

p("C03", "Version selection follows the registry's tags and the requested range",
  "For an exact version, exactly that published version is chosen; for a dist-tag, the version it points to; with no version requested (or an empty requirement), the version under the configured default tag. For a range, the default tag's version is chosen if the range allows it, otherwise the highest published version the range allows (a bare `*` falling back to the default tag when nothing else fits), a prerelease being allowed by a range only as semver prescribes. If nothing published fits the request, the result is an error, never another version.",
  ["inputs"],
  "All sets of published versions (with prereleases), all dist-tag assignments (including tags pointing at missing versions), all request forms.",
  "Unit tests sample a couple of dozen fixed version/range pairs and never a packument with several tags and prereleases.",
  ["crates/nassun/src/resolver.rs", "crates/nassun/src/client.rs"],
  [("PackageResolver::get_resolution", "crates/nassun/src/resolver.rs"), ("max_satisfying", "crates/nassun/src/resolver.rs")],
  ["Nassun::resolve(..).resolved()"])

p("C04", "A lockfile reproduces exactly the tree it was written from",
  "Writing a resolved tree as a lockfile and reading it back loses nothing, and resolving the same manifest with that lockfile gives the same packages, versions, locations and integrity values as before. This holds whatever is newly published or re-tagged in the registry in between and whatever order it answers in, and writing the lockfile again gives the same bytes.",
  ["schedules", "histories", "inputs"],
  "All resolvable dependency graphs, all later registry states that keep the locked versions, all response orders.",
  "Tests parse and print fixed lockfiles; none re-resolves a generated tree against a registry that has moved on.",
  [R+"lockfile.rs", R+"graph.rs", R+"resolver.rs"],
  [("Lockfile::to_kdl / from_kdl", R+"lockfile.rs"), ("satisfy_from_lockfile", R+"resolver.rs")],
  ["NodeMaintainer::to_kdl, resolve_manifest with kdl_lock"])

p("C05", "Locked mode succeeds exactly when the lockfile is already right",
  "With locked mode on, an apply of a project that has a lockfile succeeds if and only if that lockfile is exactly what resolving the current manifest produces from it. Otherwise (a lockfile that cannot be read included) it fails before anything under the project directory is created, changed or removed.",
  ["inputs", "histories"],
  "All manifests, all edits to the manifest or to the lockfile after it was written, all registry states.",
  "No test exercises locked mode against a lockfile file at all.",
  [R+"resolver.rs", R+"lockfile.rs", "src/apply_args.rs"],
  [("locked comparison in run_resolver", R+"resolver.rs"), ("ApplyArgs::execute order of steps", "src/apply_args.rs")],
  ["oro apply --locked: exit status and project directory content"])

p("C06", "An imported npm lockfile pins the tree it describes",
  "If a project has only an npm lockfile (package-lock.json or npm-shrinkwrap.json) that satisfies its manifest, applying installs exactly the packages, versions and locations that lockfile gives, even when the registry has newer versions. Entries that do not satisfy the manifest any more are ignored and re-resolved rather than installed.",
  ["inputs", "histories"],
  "All npm lockfiles of generated trees, with aliases, scopes and nested copies, valid or partly stale.",
  "A single fixed package-lock.json is parsed in the tests; it is never used to resolve a generated tree.",
  [R+"lockfile.rs", R+"maintainer.rs", R+"resolver.rs"],
  [("Lockfile::from_npm", R+"lockfile.rs"), ("get_lockfile precedence", R+"maintainer.rs")],
  ["NodeMaintainer::to_lockfile with npm_lock"])

p("C07", "Apply in isolated mode converges to exactly the resolved tree",
  "Whatever node_modules held before (an earlier apply of another manifest, the other layout, foreign files next to the packages, nothing), after a successful isolated apply every dependency link of every installed package leads to a directory whose files are exactly those of the resolved package version, and no link or stored package remains that the resolved tree does not contain.",
  ["histories", "inputs"],
  "All sequences of manifests and layout switches applied in one project, over all generated dependency trees.",
  "The linker tests install once into an empty directory; no test applies a second, different manifest over the first.",
  [R+"linkers/isolated.rs", R+"linkers/mod.rs"],
  [("IsolatedLinker::prune", R+"linkers/isolated.rs"), ("IsolatedLinker::extract / link_deps", R+"linkers/isolated.rs")],
  ["file system content of node_modules after oro apply / NodeMaintainer::extract"],
  [("node_modules/.oro-store", "per-package directories and links between them"), (".orogene-meta.kdl", "record of the last applied tree")])

p("C08", "Apply in hoisted mode converges to exactly the resolved tree",
  "Whatever node_modules held before (short of changes made inside an installed package), after a successful hoisted apply every location of the resolved tree holds a directory whose files are exactly those of the package version resolved for it, and node_modules contains no other package or stray file.",
  ["histories", "inputs"],
  "All sequences of manifests and layout switches applied in one project, over all generated dependency trees.",
  "The linker tests install once into an empty directory; the pruning test covers one fixed change.",
  [R+"linkers/hoisted.rs", R+"linkers/mod.rs"],
  [("HoistedLinker::prune", R+"linkers/hoisted.rs"), ("HoistedLinker::extract", R+"linkers/hoisted.rs")],
  ["file system content of node_modules after oro apply --hoisted"],
  [(".orogene-meta.kdl", "record of the last applied tree")])

p("C09", "Applying again with nothing changed changes nothing",
  "Running apply a second time with the same manifest, registry and options reports success, leaves every file and link under the project with the same content, and downloads, extracts and runs no script again.",
  ["histories", "inputs", "configurations"],
  "All generated projects, both layouts, with and without lockfile and cache.",
  "No test runs apply twice over the same project.",
  [R+"linkers/isolated.rs", R+"linkers/hoisted.rs", "src/apply_args.rs"],
  [("existing-directory skip in extract", R+"linkers/"), ("prune comparison with the recorded tree", R+"linkers/")],
  ["project directory content, registry request log, script runs"])

p("C10", "Declared executables are linked wherever their dependents look for them",
  "After a successful apply, for every package in the tree that declares executables whose files it ships, each of its dependents has, in the `.bin` directory next to where that package is found, an executable entry of the declared name that leads to that package's file (the sibling packages of one `.bin` directory declaring distinct names). This also holds after later applies that only change other packages, and no `.bin` entry leads to a package that is no longer there.",
  ["histories", "inputs"],
  "All executable declarations (string and map form, name different from the package, scoped packages, aliases), both layouts, all apply sequences.",
  "Tests cover one package with one bin, once.",
  [R+"linkers/isolated.rs", R+"linkers/hoisted.rs", "crates/oro-common/src/build_manifest.rs"],
  [("link_bins / link_dep_bins", R+"linkers/"), ("BuildManifest normalisation", "crates/oro-common/src/build_manifest.rs")],
  ["node_modules/**/.bin"])

p("C11", "An interrupted apply is repaired by the next one",
  "If an apply is killed or fails at any point, the next successful apply of the project leaves exactly the same installed packages, files and links as an apply that was never interrupted.",
  ["crash_points", "fault_sequences", "histories"],
  "Every file-system operation of an apply as a crash or failure point, for first installs and for updates, both layouts.",
  "No test interrupts an apply.",
  [R+"linkers/isolated.rs", R+"linkers/hoisted.rs", "crates/nassun/src/tarball.rs"],
  [("meta file written last / wiped tree when missing", R+"linkers/"), ("extraction into the final directory", "crates/nassun/src/tarball.rs")],
  ["project directory content after kill and re-apply"],
  [(".orogene-meta.kdl", "record of the last applied tree"), ("package directory", "absent, partial or complete")])

p("C12", "Lifecycle scripts run once, in dependency order, and always finish",
  "In an apply, every newly installed package's preinstall, install and postinstall scripts each run exactly once, and for each event a package's script starts only after that event's scripts of all packages it (transitively) depends on have finished, except inside dependency cycles; all preinstall scripts end before executables are linked, and all install scripts end before any postinstall starts. At no time do more scripts run than the configured script concurrency allows, and the apply always terminates.",
  ["schedules", "inputs", "configurations"],
  "All dependency graphs (including cyclic ones), all script durations and completion orders, all concurrency limits.",
  "Tests run one or two packages' scripts; ordering under concurrency and cycles is never exercised.",
  [R+"linkers/mod.rs", "crates/oro-script/src/lib.rs"],
  [("run_scripts scheduler", R+"linkers/mod.rs"), ("rebuild phase order", R+"linkers/mod.rs")],
  ["script start/end markers, on_script_start, process exit"],
  [("pending_rebuild / remaining / dependents", "packages whose scripts still have to run, and what they wait for")])

p("C13", "A failing script fails the apply unless only optional deps need it",
  "If a package's lifecycle script cannot be started or exits unsuccessfully, the apply fails and no script of a package depending on it starts for that event, unless the package is required only as an optional dependency, in which case the apply carries on as if it had succeeded. What a script prints makes no difference. With scripts disabled, no lifecycle script is ever run.",
  ["inputs", "fault_sequences", "schedules"],
  "All placements of failing scripts in all dependency graphs, optional or not, all events.",
  "No test has a failing script.",
  [R+"linkers/mod.rs", "crates/oro-script/src/lib.rs", R+"graph.rs"],
  [("run_dep_script error handling", R+"linkers/mod.rs"), ("Graph::is_optional", R+"graph.rs")],
  ["apply exit status, script markers"])

p("C14", "Package content that does not match its integrity is never installed",
  "If the bytes served for a package do not match the integrity value recorded for it (by the registry or by a lockfile), installing it fails and no success is reported; content that matches is never rejected. A damaged, truncated or empty response is never taken for a complete package.",
  ["inputs", "fault_sequences"],
  "All tarballs, all corruptions and truncations of them, integrity from the registry (any supported algorithm, or several) or from a lockfile.",
  "Integrity is exercised by one matching and one mismatching tarball.",
  ["crates/nassun/src/tarball.rs", "crates/nassun/src/package.rs", "crates/nassun/src/resolver.rs"],
  [("Tarball integrity checker", "crates/nassun/src/tarball.rs"), ("extract_to_dir", "crates/nassun/src/package.rs")],
  ["Package::extract_to_dir result and directory content"])

p("C15", "The cache is invisible: cached, uncached and damaged-cache installs agree",
  "Extracting a package yields exactly the regular files of its tarball (same paths, same bytes, readable, and executable where the manifest declares an executable), whether it comes from the network without a cache, fills the cache, or comes from the cache by copying or linking. If cached data is damaged or missing, the package is fetched again and the result is the same, or an error is reported; wrong content is never installed.",
  ["histories", "fault_sequences", "inputs"],
  "All package contents (long names, deep directories, many and large files), all sequences of installs with and without cache, all damage to cached entries.",
  "One package is extracted from the cache in tests; damage to the cache is never tried.",
  ["crates/nassun/src/package.rs", "crates/nassun/src/tarball.rs"],
  [("extract_to_dir cached path and fallback", "crates/nassun/src/package.rs"), ("extract_from_tarball_data", "crates/nassun/src/tarball.rs")],
  ["extracted directory content"],
  [("cacache index + content", "per-package index of files and content-addressed blobs")])

p("C16", "Installing a package never writes outside its own directory",
  "Whatever entry names, entry types, executable declarations or file modes a package's tarball and manifest contain, installing it creates, changes or removes nothing outside the project's node_modules and the cache, and nothing inside another package's directory. Such a package either fails to install or is installed without the offending parts.",
  ["inputs"],
  "All tarball entry paths (parent references, absolute, empty, links) and all manifest-declared paths.",
  "No test extracts a hostile package.",
  ["crates/nassun/src/tarball.rs", "crates/nassun/src/package.rs", R+"linkers/mod.rs"],
  [("tarball entry path handling", "crates/nassun/src/tarball.rs"), ("bin path normalisation", "crates/oro-common/src/build_manifest.rs")],
  ["scratch directory content around the project"])

p("C17", "Packages with install scripts never share files with the cache",
  "Files of an installed package that has install lifecycle scripts are never the same file (hard link) as the cache's copy, so that a script modifying its own package cannot change what later installs get; installing the same package again always yields its original content.",
  ["histories", "configurations"],
  "All packages with any install script event, all extraction modes, all sequences of installs into one or more projects sharing a cache.",
  "No test looks at link counts or re-installs after a script modified files.",
  ["crates/nassun/src/package.rs", "crates/oro-common/src/build_manifest.rs"],
  [("extract mode override for build scripts", "crates/nassun/src/package.rs")],
  ["inode identity and content after script runs"])

p("C18", "Credentials go to the registry they belong to, and nowhere else",
  "Every request made to a registry that has configured credentials (metadata and tarballs, for the default registry and for scoped ones) carries exactly those credentials in the form their kind prescribes. No request to any other host, port or path outside that registry carries them, including tarballs hosted elsewhere and redirects to elsewhere.",
  ["configurations", "inputs"],
  "All assignments of credentials (token, basic with or without password, legacy) to registries differing in host, port or path, all scope-to-registry maps, all tarball locations.",
  "Each test sends one credential kind to one mock registry.",
  ["crates/oro-client/src/auth_middleware.rs", "crates/oro-client/src/client.rs", "crates/oro-client/src/api/stream_external.rs", "crates/nassun/src/fetch/npm.rs"],
  [("AuthMiddleware", "crates/oro-client/src/auth_middleware.rs"), ("nerf_dart", "crates/oro-client/src/auth_middleware.rs")],
  ["authorization headers seen by mock registries"])

p("C19", "Transient network failures are retried, permanent ones reported",
  "A metadata or tarball request that fails transiently (connection dropped, server error, timeout or throttling status) is retried up to the configured number of times and no more, and the operation succeeds exactly if some allowed attempt succeeds (as far as the failures come before the answer begins, and nothing is cached yet). A permanent client error is reported at once without retrying, and in particular a package the registry does not have is reported as an error.",
  ["fault_sequences", "configurations"],
  "All sequences of failures per request, all retry limits.",
  "Tests use a mock server that always answers correctly, or once with one error.",
  ["crates/oro-client/src/client.rs", "crates/oro-client/src/api/packument.rs", "crates/oro-client/src/api/stream_external.rs"],
  [("retry middleware", "crates/oro-client/src/client.rs")],
  ["request log of the mock registry, outcome"])

p("C20", "Interactive login only ends with the token the registry issued",
  "A web login polls until the registry issues a token, waiting as the registry asks between polls, and returns exactly that token; a legacy login returns the token of the accepted credentials. Every refusal or unexpected answer, and a legacy login without a terminal, ends the login with an error, and nothing is stored. The credentials of the login are sent nowhere else.",
  ["fault_sequences", "histories"],
  "All sequences of registry answers (not ready, retry delays, success, missing fields, errors) in all login modes.",
  "Each test fixes one short answer sequence.",
  ["crates/oro-client/src/api/login.rs", "crates/oro-npm-account/src/login.rs", "src/commands/login.rs"],
  [("login_web polling loop", "crates/oro-npm-account/src/login.rs")],
  ["returned token, stored config, request log"])

p("C21", "add and remove edit only the dependency they name, and only on success",
  "After a successful add, each named package is listed in exactly one dependency section (the requested kind) of the project's manifest with the requested or resolved version range, and after a successful remove it is listed in none; everything else in the manifest, its values, order, and (as far as it is formatted uniformly) indentation and line ends, is unchanged. If the command fails, the manifest is byte for byte what it was; if it is killed, the manifest is the old or the new one.",
  ["inputs", "histories", "fault_sequences"],
  "All manifests (any formatting, any other fields), all sequences of add and remove with every kind, prefix and spec form, with succeeding and failing applies.",
  "Neither command has a test; the formatter has a few fixed inputs.",
  ["src/commands/add.rs", "src/commands/remove.rs", "src/apply_args.rs", "crates/oro-pretty-json/src/lib.rs"],
  [("manifest edit after apply", "src/commands/add.rs"), ("formatting detection and printing", "crates/oro-pretty-json/src/lib.rs")],
  ["package.json bytes, exit status"])

p("C22", "Option values come from the documented source of highest precedence",
  "For every option, the value in effect is the command line's if given there (negations included), otherwise the project's config file's, otherwise the global config file's, otherwise the environment's, otherwise the default; when a config file is named explicitly it is the only file consulted. Tables of the two config files are merged entry by entry, and replaced as a whole by the command line's.",
  ["configurations", "inputs"],
  "All combinations of sources that set or do not set an option, for flags, values, lists and tables.",
  "Tests load one or two sources each and never the command-line layering together with both files and the environment.",
  ["crates/oro-config/src/lib.rs", "crates/oro-config/src/kdl_source.rs", "src/lib.rs"],
  [("layered_args / with_negations", "crates/oro-config/src/lib.rs"), ("OroConfigOptions::load", "crates/oro-config/src/lib.rs")],
  ["observable effect of the option in an oro run"])

p("C23", "Stored credentials read back as stored, per registry, until cleared",
  "Storing credentials for a registry makes exactly those credentials the ones found for it, storing again replaces them, and clearing (logging out) removes them, having asked the registry to revoke a token; credentials of other registries, scope mappings and all unrelated settings in the config file stay as they were. After logging in, requests to that registry use the stored credentials.",
  ["histories", "inputs"],
  "All sequences of store, read, clear and scope-mapping operations over registries, credential kinds and pre-existing config files.",
  "Each operation is tested once on a fixed file, and read back only for one kind.",
  ["crates/oro-npm-account/src/config.rs", "src/commands/login.rs", "src/commands/logout.rs", "src/client_args.rs"],
  [("set/get/clear_credentials_by_uri", "crates/oro-npm-account/src/config.rs")],
  ["config file content, credentials read back, authorization header of later requests"])

p("C24", "Package specifiers parse to their documented meaning and print back to it",
  "Every specifier of a documented form (name, scope, version, range, tag, alias, directory, git URL, hosted git shorthand with branch or semver selector) parses to that form with exactly the parts written, and printing the parsed specifier gives one that parses to the same thing. Nothing, however malformed, makes the parser crash.",
  ["inputs"],
  "All specifiers built from the documented grammar, and malformed variants of them.",
  "Tests check fixed lists of strings for parsing and hardly any for printing.",
  ["crates/oro-package-spec/src/lib.rs", "crates/oro-package-spec/src/gitinfo.rs", "crates/oro-package-spec/src/parsers/"],
  [("nom parsers", "crates/oro-package-spec/src/parsers/"), ("Display impls", "crates/oro-package-spec/src/")],
  ["PackageSpec::from_str and Display"])

p("C25", "The prior project state survives a failed apply's manifest and lockfile",
  "The lockfile is written only by an apply that completed all its other steps successfully, and then describes exactly the tree that was installed; an apply that fails, or that was told not to apply or not to write a lockfile, leaves the existing lockfile byte for byte as it was. A killed apply leaves the old lockfile or, if it got that far, the new one. A lockfile-only apply writes it without touching node_modules.",
  ["fault_sequences", "configurations", "histories"],
  "All combinations of the apply switches, failures at every step (resolution, download, integrity, extraction, scripts), all prior states.",
  "No test runs the apply command.",
  ["src/apply_args.rs", R+"maintainer.rs", "src/commands/apply.rs", "src/commands/reapply.rs"],
  [("ApplyArgs::execute step order", "src/apply_args.rs"), ("write_lockfile", R+"maintainer.rs")],
  ["package-lock.kdl and node_modules after oro runs"])

p("C26", "Commands that run at the same time and share a cache don't disturb each other",
  "However the steps of several oro processes that share a cache interleave (and of the concurrent extractions within each), wherever any of them is killed, and whatever state the cache was left in, each process that isn't killed ends as it would have alone: it doesn't fail because of what another does to the cache, and what it installs is complete and has exactly the published contents.",
  ["schedules", "crash_points", "histories"],
  "All interleavings of cache operations of several processes, kills between any two of them, caches with missing, cut short or foreign entries and old logs.",
  "No test runs two commands at once.",
  ["crates/nassun/src/package.rs", "crates/nassun/src/tarball.rs", "src/lib.rs"],
  [("extract_to_dir_inner, clean_from_cache", "crates/nassun/src/package.rs"), ("extract_to_cache, extract_from_cache", "crates/nassun/src/tarball.rs"), ("clean_old_logs", "src/lib.rs")],
  ["outcome and node_modules of each process"])

p("C27", "`oro view` shows the package a specifier names, wherever it comes from",
  "`oro view`, of any specifier of a package in a registry, in a directory or in a git repository (by its default branch, a branch, tag or commit, or a semver range over its tags; by URL, or hosted, where archive, https and ssh stand in for each other), under an alias or not, shows the version that's named and everything published of it: as JSON all of its fields, in words its licence, dependencies, bins, people, deprecation and where its tarball is. If what's named isn't there or can't be read, it fails with an error; it never crashes, and never shows something else.",
  ["inputs", "fault_sequences", "histories"],
  "All histories of commits, branches and tags with all selectors, all manifests, all combinations of sources that are missing or damaged.",
  "Unit tests read one repository of three commits by three selectors, and one directory; none runs the command.",
  ["crates/nassun/src/fetch/git.rs", "crates/nassun/src/fetch/dir.rs", "crates/nassun/src/fetch/npm.rs", "src/commands/view.rs", "crates/oro-common/src/manifest.rs"],
  [("GitFetcher::fetch_to_temp_dir, fetch_clone", "crates/nassun/src/fetch/git.rs"), ("DirFetcher", "crates/nassun/src/fetch/dir.rs"), ("ViewCmd::execute", "src/commands/view.rs")],
  ["what oro view prints, its exit code"])

p("C28", "Package streams are what was published; validated ones end well only if so",
  "Reading a package's tarball or its entries through the library yields exactly the bytes served, and exactly the entries of the archive with their paths, kinds, sizes and contents, however they're read: in pieces of any size, in part, skipped, or unpacked (within the destination, whatever paths or links the archive has). If the content is to be validated - against the registry's metadata, a lockfile's or a given integrity, the strongest of several hashes deciding and any of that strength doing - then a stream never comes to a clean end unless all of the tarball is what that integrity stands for: anything else ends in an error (for raw tarballs of the kind InvalidData), wherever the difference is, after the end of the archive included. Content that's right, or needn't be, never gives an error. A connection that's cut short always does.",
  ["inputs", "fault_sequences"],
  "All archives, all ways of tampering with or cutting them, all integrities, all patterns of reading.",
  "No unit test reads a package as a stream.",
  ["crates/nassun/src/tarball.rs", "crates/nassun/src/entries.rs", "crates/nassun/src/package.rs", "crates/nassun/src/resolver.rs"],
  [("Tarball::poll_read, Tarball::entries", "crates/nassun/src/tarball.rs"), ("Entries, Entry", "crates/nassun/src/entries.rs"), ("Package::tarball*, Package::entries*", "crates/nassun/src/package.rs"), ("PackageResolver (integrity)", "crates/nassun/src/resolver.rs")],
  ["results of reading Tarball, Entries and Entry", "files unpacked"])

p("C29", "`oro reapply` installs anew, whatever was in node_modules, and may be killed",
  "After an `oro reapply` that succeeds, node_modules is what installing into an empty one gives, in the layout and with the options asked for (scripts having run again, or none if told so), even with `--no-apply`: no change anyone made to it survives, be it within installed packages, to their executables' permissions, additional files and directories anywhere, a damaged or missing record, or node_modules being a link (which is dropped, with nothing changed where it led). A reapply with `--lockfile-only` leaves node_modules cleared. A reapply that fails leaves the lockfile as it was. Killed at any point, while clearing included, what it leaves isn't taken for installed: the next apply succeeds and completes all of it.",
  ["crash_points", "histories", "fault_sequences", "configurations"],
  "All contents of node_modules, all changes to them, kills at every step of clearing and installing.",
  "No test runs the command.",
  ["src/commands/reapply.rs", "src/apply_args.rs", "crates/node-maintainer/src/linkers/mod.rs", "crates/node-maintainer/src/maintainer.rs"],
  [("ReapplyCmd::execute", "src/commands/reapply.rs"), ("ApplyArgs::execute", "src/apply_args.rs"), ("Linker::prune", "crates/node-maintainer/src/linkers/mod.rs")],
  ["exit codes, node_modules and lockfile after a command"])

p("C30", "Telemetry is only sent by those who opted in, who are asked once",
  "Nothing is ever sent to a telemetry service unless the user opted in, by answering yes or by an option (command line before project config before global or `--config` file before the environment); it's off by default, in CI, without a terminal, and when the question was interrupted. Who opted in has failures reported (some of them), to the configured service only. The first run in a terminal asks once; the answer holds for that run already (unless the command line or the project say otherwise), is recorded in the global or `--config` file - everything else in which is kept, comments included - and isn't asked for again. If it's interrupted, nothing changes. Killed at any point, the file is as it was or as it was to be. None of it changes what a command does or how it ends. Credentials (from config files, options, environment or URLs) are in no report and no debug log.",
  ["inputs", "configurations", "histories", "crash_points"],
  "All combinations of sources and terminals with all contents of config files, all histories of runs, kills while the answer is recorded.",
  "No test runs the first-time setup, or anything with telemetry on.",
  ["src/lib.rs", "src/commands/mod.rs", "crates/oro-client/src/error.rs"],
  [("Orogene::first_time_setup, prompt_telemetry_opt_in, setup_telemetry", "src/lib.rs"), ("log_command_line", "src/lib.rs"), ("write_config", "src/commands/mod.rs")],
  ["requests to telemetry services", "the question on the terminal", "config files", "debug logs", "exit codes"])

p("C31", "Data of any shape is taken for what it says or refused, never crashed on",
  "Whatever a registry answers, a package's own package.json, the project's package.json, a lockfile (orogene's or npm's) or a config file look like - values of any type anywhere, fields missing, unknown or repeated, text cut short, damaged, in other encodings, JSON nested deeply, URLs no request can be made to - every command ends, by itself, with what was asked for or with an error (exit code 1 or 2), never in a panic. Fields that installing takes nothing from (of whichever version of a package, and of the project) make no difference, whatever they hold, and neither does leaving out optional ones. In a package's own package.json, what's not valid among name, bin, directories and scripts is ignored while the rest counts, as are byte order marks and, but for the last one, repeated fields. A command that fails leaves package.json and lockfile as they were.",
  ["inputs"],
  "All documents, of any shape.",
  "Unit tests parse a few well-formed documents.",
  ["crates/oro-common/src/packument.rs", "crates/oro-common/src/manifest.rs", "crates/oro-common/src/build_manifest.rs", "crates/oro-client/src/error.rs", "crates/node-maintainer/src/graph.rs"],
  [("CorgiPackument, CorgiVersionMetadata, CorgiManifest", "crates/oro-common/src/packument.rs"), ("BuildManifest::from_path", "crates/oro-common/src/build_manifest.rs"), ("OroClientError::from_json_err", "crates/oro-client/src/error.rs"), ("Lockfile", "crates/node-maintainer/src/lockfile.rs")],
  ["exit codes, node_modules, package.json and lockfile after a command"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
