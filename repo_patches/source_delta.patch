From 7c0e3fd6e109233b9abeb3440b106190c7aee21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 01/79] fix: only consider an npm package to satisfy a spec if
 it is the package asked for

An aliased dependency could be met by whatever other package already sat
under the same name in node_modules, as long as the version matched.
---
 crates/nassun/src/resolver.rs | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/crates/nassun/src/resolver.rs b/crates/nassun/src/resolver.rs
index 87ec99f..989223e 100644
--- a/crates/nassun/src/resolver.rs
+++ b/crates/nassun/src/resolver.rs
@@ -14,6 +14,8 @@ use crate::package::Package;
 #[derive(Clone, PartialEq, Eq)]
 pub enum PackageResolution {
     Npm {
+        /// Name of the package in its registry. This can be different from
+        /// the name the package was requested under, if an alias was used.
         name: String,
         version: SemVerVersion,
         tarball: Url,
@@ -66,14 +68,24 @@ impl PackageResolution {
         use PackageResolution as PR;
         use PackageSpec as PS;
         Ok(match (self, spec.target()) {
-            (PR::Npm { version, .. }, PS::Npm { requested, .. }) => {
-                match requested {
-                    Some(VersionSpec::Version(v)) => version == v,
-                    Some(VersionSpec::Range(r)) => r.satisfies(version),
-                    // It's expected that `spec` has previously been resolved at least down to a range.
-                    Some(VersionSpec::Tag(_)) => false,
-                    None => false,
-                }
+            (
+                PR::Npm { name, version, .. },
+                PS::Npm {
+                    name: wanted,
+                    requested,
+                    ..
+                },
+            ) => {
+                // With aliases, the same name in `node_modules` can be asked
+                // to hold entirely different packages.
+                name == wanted
+                    && match requested {
+                        Some(VersionSpec::Version(v)) => version == v,
+                        Some(VersionSpec::Range(r)) => r.satisfies(version),
+                        // It's expected that `spec` has previously been resolved at least down to a range.
+                        Some(VersionSpec::Tag(_)) => false,
+                        None => false,
+                    }
             }
             (PR::Dir { path: pr_path, .. }, PS::Dir { path: ps_path }) => {
                 pr_path
@@ -173,6 +185,11 @@ impl PackageResolver {
             });
         }
 
+        let package_name = match spec {
+            Npm { name, .. } => name.clone(),
+            _ => return Err(NassunError::InvalidPackageSpec(spec.clone())),
+        };
+
         let mut target: Option<&SemVerVersion> = match spec {
             Npm {
                 requested: Some(VersionSpec::Version(ref version)),
@@ -245,7 +262,7 @@ impl PackageResolver {
             })
             .and_then(|v| {
                 Ok(PackageResolution::Npm {
-                    name: name.into(),
+                    name: package_name.clone(),
                     version: v
                         .manifest
                         .version
-- 
2.43.0


From c1e7df420d22b03ed6df733fd5521f3f18bad431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 02/79] fix: don't rely on a package that is bound to be
 shadowed by a pending requirement

While an ancestor of the dependent still waits for its own, conflicting
requirement of the same name to be resolved, a package further up must not
be used: what the ancestor gets will be placed in between.
---
 crates/node-maintainer/src/resolver.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/crates/node-maintainer/src/resolver.rs b/crates/node-maintainer/src/resolver.rs
index 49cad17..2fdccc4 100644
--- a/crates/node-maintainer/src/resolver.rs
+++ b/crates/node-maintainer/src/resolver.rs
@@ -284,6 +284,7 @@ impl<'a> Resolver<'a> {
                 .package
                 .resolved()
                 .satisfies(&dep.spec)?
+                && !Self::will_be_shadowed(graph, dep, satisfier_idx)?
             {
                 let edge_idx = graph.inner.add_edge(
                     dep.node_idx,
@@ -300,6 +301,30 @@ impl<'a> Resolver<'a> {
         Ok(None)
     }
 
+    /// Whether some package between `dep`'s dependent and `satisfier_idx`
+    /// has a requirement of its own, under the same name, that
+    /// `satisfier_idx` does not meet. Whatever that requirement is going to
+    /// be resolved to will end up closer to the dependent than
+    /// `satisfier_idx` is, so the latter can't be relied on.
+    fn will_be_shadowed(
+        graph: &Graph,
+        dep: &NodeDependency,
+        satisfier_idx: NodeIndex,
+    ) -> Result<bool, NodeMaintainerError> {
+        let satisfier = &graph[satisfier_idx];
+        for node in graph.node_parent_iter(dep.node_idx) {
+            if Some(node.idx) == satisfier.parent {
+                break;
+            }
+            if let Some((req, _)) = node.dependency_reqs.get(&dep.name) {
+                if !satisfier.package.resolved().satisfies(req)? {
+                    return Ok(true);
+                }
+            }
+        }
+        Ok(false)
+    }
+
     async fn satisfy_from_lockfile(
         &self,
         graph: &Graph,
-- 
2.43.0


From 10021a037586e8a2a03dc3939134e00b0def1bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:22 +0000
Subject: [PATCH 03/79] fix: let packages requested by dist-tag be shared and
 hoisted

Nothing ever satisfied a dist-tag requirement, not even the very package it
resolves to, so each dependent got its own nested copy and cycles of such
requirements nested forever.
---
 crates/node-maintainer/src/resolver.rs | 27 +++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/crates/node-maintainer/src/resolver.rs b/crates/node-maintainer/src/resolver.rs
index 2fdccc4..f45ae3b 100644
--- a/crates/node-maintainer/src/resolver.rs
+++ b/crates/node-maintainer/src/resolver.rs
@@ -11,7 +11,7 @@ use futures::{StreamExt, TryFutureExt};
 use indexmap::IndexMap;
 use nassun::client::Nassun;
 use nassun::package::Package;
-use nassun::PackageSpec;
+use nassun::{PackageResolution, PackageSpec};
 use oro_common::{CorgiManifest, CorgiVersionMetadata};
 use petgraph::stable_graph::NodeIndex;
 use petgraph::visit::EdgeRef;
@@ -127,7 +127,9 @@ impl<'a> Resolver<'a> {
                         handler();
                     }
 
-                    if let Some(_child_idx) = Self::satisfy_dependency(&mut self.graph, &dep)? {
+                    if let Some(_child_idx) =
+                        Self::satisfy_dependency(&mut self.graph, &dep, None)?
+                    {
                         if let Some(handler) = &self.on_resolve_progress {
                             handler(&self.graph[_child_idx].package, dep.start.elapsed());
                         }
@@ -219,9 +221,11 @@ impl<'a> Resolver<'a> {
                         }
 
                         for dep in deps {
-                            if let Some(_child_idx) =
-                                Self::satisfy_dependency(&mut self.graph, &dep)?
-                            {
+                            if let Some(_child_idx) = Self::satisfy_dependency(
+                                &mut self.graph,
+                                &dep,
+                                Some(package.resolved()),
+                            )? {
                                 if let Some(handler) = &self.on_resolve_progress {
                                     handler(&self.graph[_child_idx].package, dep.start.elapsed());
                                 }
@@ -278,12 +282,13 @@ impl<'a> Resolver<'a> {
     fn satisfy_dependency(
         graph: &mut Graph,
         dep: &NodeDependency,
+        // What `dep.spec` is known to resolve to, if it is. This is the only
+        // way to tell whether dist-tags are satisfied.
+        resolution: Option<&PackageResolution>,
     ) -> Result<Option<NodeIndex>, NodeMaintainerError> {
         if let Some(satisfier_idx) = graph.find_by_name(dep.node_idx, &dep.name)? {
-            if graph[satisfier_idx]
-                .package
-                .resolved()
-                .satisfies(&dep.spec)?
+            let satisfier = graph[satisfier_idx].package.resolved();
+            if (Some(satisfier) == resolution || satisfier.satisfies(&dep.spec)?)
                 && !Self::will_be_shadowed(graph, dep, satisfier_idx)?
             {
                 let edge_idx = graph.inner.add_edge(
@@ -317,7 +322,7 @@ impl<'a> Resolver<'a> {
                 break;
             }
             if let Some((req, _)) = node.dependency_reqs.get(&dep.name) {
-                if !satisfier.package.resolved().satisfies(req)? {
+                if req != &dep.spec && !satisfier.package.resolved().satisfies(req)? {
                     return Ok(true);
                 }
             }
@@ -416,7 +421,7 @@ impl<'a> Resolver<'a> {
             }
 
             if let Some((req, _)) = graph[curr_target_idx].dependency_reqs.get(child_name) {
-                if !graph[child_idx].package.resolved().satisfies(req)? {
+                if req != requested && !graph[child_idx].package.resolved().satisfies(req)? {
                     break 'outer;
                 }
             }
-- 
2.43.0


From e197e5e1be1841d3d1ea768096e21884065f22d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 04/79] fix: don't nest dependency cycles through conflicting
 packages forever

Such cycles have no finite node_modules layout. Resolution never ended, and
used up all memory; report them as an error instead.
---
 crates/node-maintainer/src/error.rs    |  7 +++++++
 crates/node-maintainer/src/resolver.rs | 26 ++++++++++++++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/crates/node-maintainer/src/error.rs b/crates/node-maintainer/src/error.rs
index b3bb79e..e3459be 100644
--- a/crates/node-maintainer/src/error.rs
+++ b/crates/node-maintainer/src/error.rs
@@ -197,6 +197,13 @@ pub enum NodeMaintainerError {
         help("Did you modify package.json by hand?")
     )]
     LockfileMismatch,
+
+    /// A cycle of dependencies goes through conflicting versions of the same
+    /// package, and can't be laid out in a `node_modules` hierarchy: each
+    /// package would need yet another copy of the others nested below it.
+    #[error("Dependency cycle through conflicting packages would need endless nesting: {0} inside of {1}.")]
+    #[diagnostic(code(node_maintainer::endless_nesting), url(docsrs))]
+    EndlessNesting(String, String),
 }
 
 impl<T> From<mpsc::TrySendError<T>> for NodeMaintainerError {
diff --git a/crates/node-maintainer/src/resolver.rs b/crates/node-maintainer/src/resolver.rs
index f45ae3b..d2c7590 100644
--- a/crates/node-maintainer/src/resolver.rs
+++ b/crates/node-maintainer/src/resolver.rs
@@ -27,6 +27,10 @@ use crate::maintainer::{ProgressAdded, ProgressHandler};
 use crate::META_FILE_NAME;
 use crate::{Lockfile, LockfileNode};
 
+/// How many copies of one package may be nested inside of each other before
+/// the resolver concludes that there's no end to it.
+const MAX_SELF_NESTING: usize = 4;
+
 #[derive(Debug, Clone)]
 struct NodeDependency {
     name: UniCase<String>,
@@ -439,6 +443,12 @@ impl<'a> Resolver<'a> {
                 }
             }
         }
+        if Self::nests_endlessly(graph, child_idx, target_idx) {
+            return Err(NodeMaintainerError::EndlessNesting(
+                format!("{:?}", graph[child_idx].package.resolved()),
+                graph.node_path_string(target_idx),
+            ));
+        }
         {
             // Now we set backlinks: first, the dependent node needs to point
             // to the child, wherever it is in the graph.
@@ -469,6 +479,22 @@ impl<'a> Resolver<'a> {
         Ok(child_idx)
     }
 
+    /// Whether placing `child_idx` below `parent_idx` would make it the last
+    /// of too long a chain of copies of the same package, each nested
+    /// somewhere inside the previous one. That's what a dependency cycle that
+    /// can't be laid out in a `node_modules` hierarchy looks like: it'd go on
+    /// forever.
+    fn nests_endlessly(graph: &Graph, child_idx: NodeIndex, parent_idx: NodeIndex) -> bool {
+        let child = &graph[child_idx];
+        graph
+            .node_parent_iter(parent_idx)
+            .filter(|node| {
+                node.name == child.name && node.package.resolved() == child.package.resolved()
+            })
+            .count()
+            >= MAX_SELF_NESTING
+    }
+
     #[cfg(not(target_arch = "wasm32"))]
     async fn load_actual(&mut self) -> Result<(), NodeMaintainerError> {
         let meta = self.root.join("node_modules").join(META_FILE_NAME);
-- 
2.43.0


From ab4ba3bda3fde7de7983c82fd2ad4e817c755a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 05/79] fix: accept an empty version requirement, and treat it
 as `*`

`"dependencies": { "foo": "" }` is valid and made the whole resolution
fail.
---
 crates/oro-package-spec/src/parsers/npm.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/oro-package-spec/src/parsers/npm.rs b/crates/oro-package-spec/src/parsers/npm.rs
index f013beb..5204bf9 100644
--- a/crates/oro-package-spec/src/parsers/npm.rs
+++ b/crates/oro-package-spec/src/parsers/npm.rs
@@ -3,7 +3,7 @@ use node_semver::{Range as SemVerRange, Version as SemVerVersion};
 use nom::branch::alt;
 use nom::bytes::complete::{tag_no_case as tag, take_till1};
 use nom::character::complete::char;
-use nom::combinator::{cut, map, map_res, opt};
+use nom::combinator::{cut, eof, map, map_res, opt};
 use nom::error::context;
 use nom::sequence::{delimited, preceded, tuple};
 use nom::IResult;
@@ -45,10 +45,15 @@ pub(crate) fn npm_spec(input: &str) -> IResult<&str, PackageSpec, SpecParseError
 fn version_req(input: &str) -> IResult<&str, VersionSpec, SpecParseError<&str>> {
     context(
         "version requirement",
-        alt((semver_version, semver_range, version_tag)),
+        alt((empty_req, semver_version, semver_range, version_tag)),
     )(input)
 }
 
+/// An empty version requirement is the same as `*`.
+fn empty_req(input: &str) -> IResult<&str, VersionSpec, SpecParseError<&str>> {
+    map(eof, |_| VersionSpec::Range(SemVerRange::any()))(input)
+}
+
 fn semver_version(input: &str) -> IResult<&str, VersionSpec, SpecParseError<&str>> {
     let (input, version) = map_res(take_till1(|_| false), SemVerVersion::parse)(input)?;
     Ok((input, VersionSpec::Version(version)))
-- 
2.43.0


From d2516eb2119cb885556fb1b9f4be3924d7b0a083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:21 +0000
Subject: [PATCH 06/79] fix: keep the real name of aliased packages in
 lockfiles

---
 crates/node-maintainer/src/graph.rs    |  6 +++++-
 crates/node-maintainer/src/lockfile.rs | 23 ++++++++++++++++++++---
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/crates/node-maintainer/src/graph.rs b/crates/node-maintainer/src/graph.rs
index 921fdd5..b63e355 100644
--- a/crates/node-maintainer/src/graph.rs
+++ b/crates/node-maintainer/src/graph.rs
@@ -400,7 +400,11 @@ impl Graph {
             deps.insert(name.to_string(), requested.requested().clone());
         }
         Ok(LockfileNode {
-            name: UniCase::new(node.package.name().to_string()),
+            name: UniCase::new(match node.package.resolved() {
+                // Not the same as the package's name for aliases.
+                PackageResolution::Npm { name, .. } => name.clone(),
+                _ => node.package.name().to_string(),
+            }),
             is_root,
             path: path.into(),
             resolved: Some(resolved),
diff --git a/crates/node-maintainer/src/lockfile.rs b/crates/node-maintainer/src/lockfile.rs
index 191b1a6..a16d8ad 100644
--- a/crates/node-maintainer/src/lockfile.rs
+++ b/crates/node-maintainer/src/lockfile.rs
@@ -161,7 +161,15 @@ impl LockfileNode {
         &self,
         nassun: &Nassun,
     ) -> Result<Option<Package>, NodeMaintainerError> {
+        // The name the package is installed as, which isn't the package's own
+        // name if it's aliased.
+        let alias = self.path.last().unwrap_or(&self.name);
         let spec = match (self.resolved.as_ref(), self.version.as_ref()) {
+            (Some(resolved), Some(version))
+                if resolved.starts_with("http") && *alias != self.name =>
+            {
+                format!("{alias}@npm:{}@{version}", self.name)
+            }
             (Some(resolved), Some(version)) if resolved.starts_with("http") => {
                 format!("{}@{version}", self.name)
             }
@@ -196,7 +204,7 @@ impl LockfileNode {
                             .map_err(|e| NodeMaintainerError::UrlParseError(url.clone(), e))?,
                         integrity: self.integrity.clone(),
                     };
-                    nassun.resolve_from(self.name.to_string(), spec, resolution)
+                    nassun.resolve_from(alias.to_string(), spec, resolution)
                 } else {
                     nassun.resolve(spec.to_string()).await?
                 }
@@ -237,8 +245,12 @@ impl LockfileNode {
         let name = if is_root {
             UniCase::new("".into())
         } else {
-            path.last()
-                .cloned()
+            // Only aliased packages have their real name written down.
+            children
+                .get_arg("name")
+                .and_then(|name| name.as_string())
+                .map(|name| UniCase::new(name.to_string()))
+                .or_else(|| path.last().cloned())
                 // TODO: add a miette span here
                 .ok_or_else(|| NodeMaintainerError::KdlLockMissingName(node.clone()))?
         };
@@ -308,6 +320,11 @@ impl LockfileNode {
         for name in &self.path {
             kdl_node.push(name.as_ref());
         }
+        if !self.is_root && self.path.last() != Some(&self.name) {
+            let mut nnode = KdlNode::new("name");
+            nnode.push(self.name.to_string());
+            kdl_node.ensure_children().nodes_mut().push(nnode);
+        }
         if let Some(ref version) = self.version {
             let mut vnode = KdlNode::new("version");
             vnode.push(version.to_string());
-- 
2.43.0


From c9103a223cd9820e3224300b0b87f73343f6227c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 07/79] fix: compare what lockfiles say about the tree in
 locked mode

---
 crates/node-maintainer/src/lockfile.rs | 45 ++++++++++++++++++++++++++
 crates/node-maintainer/src/resolver.rs |  2 +-
 2 files changed, 46 insertions(+), 1 deletion(-)

diff --git a/crates/node-maintainer/src/lockfile.rs b/crates/node-maintainer/src/lockfile.rs
index a16d8ad..fdc8882 100644
--- a/crates/node-maintainer/src/lockfile.rs
+++ b/crates/node-maintainer/src/lockfile.rs
@@ -31,6 +31,29 @@ impl Lockfile {
         &self.packages
     }
 
+    /// Whether both lockfiles have the same packages, with the same
+    /// requirements, in the same places. Unlike with `==`, it doesn't matter
+    /// what kind of lockfile they were read from, if any.
+    pub(crate) fn describes_same_tree(&self, other: &Self) -> bool {
+        let packages =
+            |lockfile: &Self| lockfile.packages.values().filter(|pkg| !pkg.is_root).count();
+        self.root.requires_same_as(&other.root)
+            && packages(self) == packages(other)
+            && self
+                .packages
+                .iter()
+                .filter(|(_, pkg)| !pkg.is_root)
+                .all(|(path, pkg)| {
+                    other.packages.get(path).map_or(false, |other| {
+                        pkg.name == other.name
+                            && pkg.version == other.version
+                            && pkg.resolved == other.resolved
+                            && pkg.integrity == other.integrity
+                            && pkg.requires_same_as(other)
+                    })
+                })
+    }
+
     pub fn to_kdl(&self) -> KdlDocument {
         let mut doc = KdlDocument::new();
         doc.set_leading(
@@ -157,6 +180,28 @@ impl From<LockfileNode> for CorgiManifest {
 }
 
 impl LockfileNode {
+    fn requires_same_as(&self, other: &Self) -> bool {
+        let requirements = |node: &Self| {
+            [
+                &node.dependencies,
+                &node.dev_dependencies,
+                &node.optional_dependencies,
+            ]
+            .map(|deps| {
+                deps.iter()
+                    .map(|(name, requested)| {
+                        let spec = format!("{name}@{requested}").parse::<PackageSpec>();
+                        (
+                            name.clone(),
+                            spec.map_or_else(|_| requested.clone(), |spec| spec.requested()),
+                        )
+                    })
+                    .collect::<IndexMap<_, _>>()
+            })
+        };
+        requirements(self) == requirements(other)
+    }
+
     pub(crate) async fn to_package(
         &self,
         nassun: &Nassun,
diff --git a/crates/node-maintainer/src/resolver.rs b/crates/node-maintainer/src/resolver.rs
index d2c7590..cd95af8 100644
--- a/crates/node-maintainer/src/resolver.rs
+++ b/crates/node-maintainer/src/resolver.rs
@@ -268,7 +268,7 @@ impl<'a> Resolver<'a> {
 
         if self.locked {
             if let Some(lockfile) = lockfile {
-                if lockfile != self.graph.to_lockfile()? {
+                if !lockfile.describes_same_tree(&self.graph.to_lockfile()?) {
                     return Err(NodeMaintainerError::LockfileMismatch);
                 }
             }
-- 
2.43.0


From 6f9bfcb18da690cfce8bbc0b302b8b86116a4aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:48 +0000
Subject: [PATCH 08/79] fix: follow the lockfile before looking for what else
 would do

What is recorded in a lockfile for a dependency is what it should get, even
if some other package placed so far would satisfy it too, and even if the
requirement is a dist-tag, which only the lockfile can tell the version of.
---
 crates/node-maintainer/src/lockfile.rs |  10 ++
 crates/node-maintainer/src/resolver.rs | 227 +++++++++++++++++--------
 2 files changed, 163 insertions(+), 74 deletions(-)

diff --git a/crates/node-maintainer/src/lockfile.rs b/crates/node-maintainer/src/lockfile.rs
index fdc8882..8337711 100644
--- a/crates/node-maintainer/src/lockfile.rs
+++ b/crates/node-maintainer/src/lockfile.rs
@@ -180,6 +180,16 @@ impl From<LockfileNode> for CorgiManifest {
 }
 
 impl LockfileNode {
+    /// Whether this entry is for the package with the given resolution.
+    pub(crate) fn is_locked_to(&self, resolution: &PackageResolution) -> bool {
+        match resolution {
+            PackageResolution::Npm { name, version, .. } => {
+                *self.name == *name && self.version.as_ref() == Some(version)
+            }
+            _ => false,
+        }
+    }
+
     fn requires_same_as(&self, other: &Self) -> bool {
         let requirements = |node: &Self| {
             [
diff --git a/crates/node-maintainer/src/resolver.rs b/crates/node-maintainer/src/resolver.rs
index cd95af8..cd63f7c 100644
--- a/crates/node-maintainer/src/resolver.rs
+++ b/crates/node-maintainer/src/resolver.rs
@@ -11,7 +11,7 @@ use futures::{StreamExt, TryFutureExt};
 use indexmap::IndexMap;
 use nassun::client::Nassun;
 use nassun::package::Package;
-use nassun::{PackageResolution, PackageSpec};
+use nassun::{PackageResolution, PackageSpec, VersionSpec};
 use oro_common::{CorgiManifest, CorgiVersionMetadata};
 use petgraph::stable_graph::NodeIndex;
 use petgraph::visit::EdgeRef;
@@ -31,6 +31,15 @@ use crate::{Lockfile, LockfileNode};
 /// the resolver concludes that there's no end to it.
 const MAX_SELF_NESTING: usize = 4;
 
+fn path_string(path: &VecDeque<UniCase<String>>) -> UniCase<String> {
+    UniCase::from(
+        path.iter()
+            .map(|x| x.to_string())
+            .collect::<Vec<_>>()
+            .join("/node_modules/"),
+    )
+}
+
 #[derive(Debug, Clone)]
 struct NodeDependency {
     name: UniCase<String>,
@@ -131,54 +140,61 @@ impl<'a> Resolver<'a> {
                         handler();
                     }
 
-                    if let Some(_child_idx) =
-                        Self::satisfy_dependency(&mut self.graph, &dep, None)?
-                    {
+                    // If we have a lockfile, first check what it says about
+                    // this dependency, falling back to the actual tree lock
+                    // if that's there.
+                    let lock = lockfile.as_ref().or(self.actual_tree.as_ref());
+                    let locked = if let Some(lock) = lock {
+                        self.satisfy_from_lockfile(&self.graph, node_idx, lock, &name, &dep.spec)
+                            .await?
+                    } else {
+                        None
+                    };
+
+                    // If the lockfile wants a package that's closer to the
+                    // dependent than whatever has been placed so far, that's
+                    // the one to use: it just isn't there yet.
+                    let existing = self.graph.find_by_name(node_idx, &name)?;
+                    let is_closer = |(_, lockfile_node): &(Package, LockfileNode)| {
+                        existing.map_or(true, |idx| {
+                            self.graph.node_path(idx).len() < lockfile_node.path.len()
+                        })
+                    };
+
+                    let satisfier = if locked.as_ref().map_or(false, is_closer) {
+                        None
+                    } else {
+                        // Walk up the current hierarchy to see if we find a
+                        // dependency that already satisfies this request. If so,
+                        // make a new edge and move on.
+                        Self::satisfy_dependency(
+                            &mut self.graph,
+                            &dep,
+                            locked.as_ref().map(|(package, _)| package.resolved()),
+                            lock,
+                        )?
+                    };
+
+                    if let Some(_child_idx) = satisfier {
                         if let Some(handler) = &self.on_resolve_progress {
                             handler(&self.graph[_child_idx].package, dep.start.elapsed());
                         }
-                    }
-                    // Walk up the current hierarchy to see if we find a
-                    // dependency that already satisfies this request. If so,
-                    // make a new edge and move on.
-                    else {
-                        // If we have a lockfile, first check if there's a
-                        // dep there that would satisfy this.
-                        let lock = if lockfile.is_some() {
-                            &lockfile
-                        } else {
-                            // Fall back to the actual tree lock if it's there.
-                            &self.actual_tree
-                        };
-                        if let Some(kdl_lock) = lock {
-                            if let Some((package, lockfile_node)) = self
-                                .satisfy_from_lockfile(
-                                    &self.graph,
-                                    node_idx,
-                                    kdl_lock,
-                                    &name,
-                                    &dep.spec,
-                                )
-                                .await?
-                            {
-                                let target_path = lockfile_node.path.clone();
-
-                                let child_idx = Self::place_child(
-                                    &mut self.graph,
-                                    &dep,
-                                    package,
-                                    lockfile_node.into(),
-                                    Some(target_path),
-                                )?;
-                                q.push_back(child_idx);
+                    } else if let Some((package, lockfile_node)) = locked {
+                        let target_path = lockfile_node.path.clone();
+
+                        let child_idx = Self::place_child(
+                            &mut self.graph,
+                            &dep,
+                            package,
+                            lockfile_node.into(),
+                            Some(target_path),
+                        )?;
+                        q.push_back(child_idx);
 
-                                if let Some(handler) = &self.on_resolve_progress {
-                                    handler(&self.graph[child_idx].package, dep.start.elapsed());
-                                }
-                                continue;
-                            }
+                        if let Some(handler) = &self.on_resolve_progress {
+                            handler(&self.graph[child_idx].package, dep.start.elapsed());
                         }
-
+                    } else {
                         // Otherwise, we have to fetch package metadata to
                         // create a new node (which we'll place later).
                         in_flight += 1;
@@ -229,6 +245,7 @@ impl<'a> Resolver<'a> {
                                 &mut self.graph,
                                 &dep,
                                 Some(package.resolved()),
+                                lockfile.as_ref().or(self.actual_tree.as_ref()),
                             )? {
                                 if let Some(handler) = &self.on_resolve_progress {
                                     handler(&self.graph[_child_idx].package, dep.start.elapsed());
@@ -289,11 +306,12 @@ impl<'a> Resolver<'a> {
         // What `dep.spec` is known to resolve to, if it is. This is the only
         // way to tell whether dist-tags are satisfied.
         resolution: Option<&PackageResolution>,
+        lockfile: Option<&Lockfile>,
     ) -> Result<Option<NodeIndex>, NodeMaintainerError> {
         if let Some(satisfier_idx) = graph.find_by_name(dep.node_idx, &dep.name)? {
             let satisfier = graph[satisfier_idx].package.resolved();
             if (Some(satisfier) == resolution || satisfier.satisfies(&dep.spec)?)
-                && !Self::will_be_shadowed(graph, dep, satisfier_idx)?
+                && !Self::will_be_shadowed(graph, dep, satisfier_idx, lockfile)?
             {
                 let edge_idx = graph.inner.add_edge(
                     dep.node_idx,
@@ -319,6 +337,7 @@ impl<'a> Resolver<'a> {
         graph: &Graph,
         dep: &NodeDependency,
         satisfier_idx: NodeIndex,
+        lockfile: Option<&Lockfile>,
     ) -> Result<bool, NodeMaintainerError> {
         let satisfier = &graph[satisfier_idx];
         for node in graph.node_parent_iter(dep.node_idx) {
@@ -326,7 +345,15 @@ impl<'a> Resolver<'a> {
                 break;
             }
             if let Some((req, _)) = node.dependency_reqs.get(&dep.name) {
-                if req != &dep.spec && !satisfier.package.resolved().satisfies(req)? {
+                if req != &dep.spec
+                    && !satisfier.package.resolved().satisfies(req)?
+                    && !lockfile
+                        .and_then(|lock| Self::pinned(graph, node.idx, lock, &dep.name, req))
+                        .map_or(false, |pinned| {
+                            pinned.is_locked_to(satisfier.package.resolved())
+                                && graph.node_path(satisfier_idx) == pinned.path
+                        })
+                {
                     return Ok(true);
                 }
             }
@@ -342,39 +369,90 @@ impl<'a> Resolver<'a> {
         name: &UniCase<String>,
         requested: &PackageSpec,
     ) -> Result<Option<(Package, LockfileNode)>, NodeMaintainerError> {
+        if let Some(lockfile_node) = Self::find_locked(graph, dependent_idx, lockfile, name) {
+            if let Some(package) = lockfile_node.to_package(&self.nassun).await? {
+                if package.resolved().satisfies(requested)?
+                    || Self::pinned(graph, dependent_idx, lockfile, name, requested).is_some()
+                {
+                    return Ok(Some((package, lockfile_node.clone())));
+                }
+                // TODO: Log this We found a lockfile node in a place
+                // where it would be loaded, but it doesn't satisfy the
+                // actual request, so it would be wrong. Return None here
+                // so the node gets re-resolved.
+            }
+        }
+        Ok(None)
+    }
+
+    /// The package that, going by the lockfile, is what `dependent_idx` finds
+    /// when it looks for `name`.
+    fn find_locked<'b>(
+        graph: &Graph,
+        dependent_idx: NodeIndex,
+        lockfile: &'b Lockfile,
+        name: &UniCase<String>,
+    ) -> Option<&'b LockfileNode> {
         let mut path = graph.node_path(dependent_idx);
-        let mut last_loop = false;
         loop {
-            if path.is_empty() {
-                last_loop = true;
-            }
             path.push_back(name.clone());
-            let path_str = UniCase::from(
-                path.iter()
-                    .map(|x| x.to_string())
-                    .collect::<Vec<_>>()
-                    .join("/node_modules/"),
-            );
+            let locked = lockfile.packages().get(&path_string(&path));
             path.pop_back();
-            if let Some(lockfile_node) = lockfile.packages().get(&path_str) {
-                if let Some(package) = lockfile_node.to_package(&self.nassun).await? {
-                    if package.resolved().satisfies(requested)? {
-                        return Ok(Some((package, lockfile_node.clone())));
-                    } else {
-                        // TODO: Log this We found a lockfile node in a place
-                        // where it would be loaded, but it doesn't satisfy the
-                        // actual request, so it would be wrong. Return None here
-                        // so the node gets re-resolved.
-                        return Ok(None);
-                    }
-                }
+            if locked.is_some() || path.pop_back().is_none() {
+                return locked;
             }
-            if last_loop {
-                break;
-            }
-            path.pop_back();
         }
-        Ok(None)
+    }
+
+    /// Requirements like dist-tags don't say by themselves which versions
+    /// they're satisfied by, and what they resolve to can change at any time.
+    /// If the lockfile has that same requirement for the same dependent,
+    /// though, then they're satisfied by what it was resolved to back then.
+    fn pinned<'b>(
+        graph: &Graph,
+        dependent_idx: NodeIndex,
+        lockfile: &'b Lockfile,
+        name: &UniCase<String>,
+        requested: &PackageSpec,
+    ) -> Option<&'b LockfileNode> {
+        let wanted = match requested.target() {
+            PackageSpec::Npm {
+                name,
+                requested: None | Some(VersionSpec::Tag(_)),
+                ..
+            } => name,
+            PackageSpec::Npm {
+                name,
+                requested: Some(VersionSpec::Range(range)),
+                ..
+            } if matches!(&range.to_string()[..], "*" | ">=0.0.0") => name,
+            _ => return None,
+        };
+        let dependent = if dependent_idx == graph.root {
+            lockfile.root()
+        } else {
+            lockfile
+                .packages()
+                .get(&path_string(&graph.node_path(dependent_idx)))
+                .filter(|node| node.is_locked_to(graph[dependent_idx].package.resolved()))?
+        };
+        let same_requirement = dependent
+            .dependencies
+            .iter()
+            .chain(&dependent.dev_dependencies)
+            .chain(&dependent.optional_dependencies)
+            .any(|(dep, spec)| {
+                UniCase::new(dep.as_str()) == UniCase::new(name.as_str())
+                    && format!("{dep}@{spec}")
+                        .parse::<PackageSpec>()
+                        .map_or(false, |spec| spec == *requested)
+            });
+        if same_requirement {
+            Self::find_locked(graph, dependent_idx, lockfile, name)
+                .filter(|node| *node.name == *wanted)
+        } else {
+            None
+        }
     }
 
     fn place_child(
@@ -417,7 +495,8 @@ impl<'a> Resolver<'a> {
                         .edge_endpoints(edge_ref.id())
                         .expect("Where did the edge go?!?!");
                     if graph.is_ancestor(curr_target_idx, from)
-                        && !graph[resolved].package.resolved().satisfies(requested)?
+                        && (target_path.is_some()
+                            || !graph[resolved].package.resolved().satisfies(requested)?)
                     {
                         break 'outer;
                     }
-- 
2.43.0


From 7cac27f2762c2231bb0c6d7de896cf5f343fe0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:48 +0000
Subject: [PATCH 09/79] fix: read and write an empty version requirement
 exactly like `*`

---
 crates/oro-package-spec/src/parsers/npm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oro-package-spec/src/parsers/npm.rs b/crates/oro-package-spec/src/parsers/npm.rs
index 5204bf9..6cd6470 100644
--- a/crates/oro-package-spec/src/parsers/npm.rs
+++ b/crates/oro-package-spec/src/parsers/npm.rs
@@ -51,7 +51,7 @@ fn version_req(input: &str) -> IResult<&str, VersionSpec, SpecParseError<&str>>
 
 /// An empty version requirement is the same as `*`.
 fn empty_req(input: &str) -> IResult<&str, VersionSpec, SpecParseError<&str>> {
-    map(eof, |_| VersionSpec::Range(SemVerRange::any()))(input)
+    map_res(eof, |_| SemVerRange::parse("*").map(VersionSpec::Range))(input)
 }
 
 fn semver_version(input: &str) -> IResult<&str, VersionSpec, SpecParseError<&str>> {
-- 
2.43.0


From bd7e3ac08c940608aad0873c9cea38a40687a978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 10/79] fix: prune stale scoped and nested packages from
 hoisted node_modules

---
 crates/node-maintainer/src/linkers/hoisted.rs | 228 +++++++++---------
 1 file changed, 118 insertions(+), 110 deletions(-)

diff --git a/crates/node-maintainer/src/linkers/hoisted.rs b/crates/node-maintainer/src/linkers/hoisted.rs
index 619c21b..4271a05 100644
--- a/crates/node-maintainer/src/linkers/hoisted.rs
+++ b/crates/node-maintainer/src/linkers/hoisted.rs
@@ -1,6 +1,6 @@
 use std::collections::HashSet;
 use std::ffi::OsStr;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::sync::atomic::AtomicUsize;
 use std::sync::{atomic, Arc};
 
@@ -104,123 +104,38 @@ impl HoistedLinker {
             return Ok(0);
         }
 
-        let nm_osstr = Some(std::ffi::OsStr::new("node_modules"));
-        let bin_osstr = Some(std::ffi::OsStr::new(".bin"));
-        let meta = prefix.join(META_FILE_NAME);
-        let mut extraneous_packages = 0;
-        let extraneous = &mut extraneous_packages;
+        let mut extraneous = Vec::new();
+        self.find_extraneous(graph, &prefix, &prefix, &mut extraneous)?;
+        let extraneous_packages = extraneous.len();
 
-        for entry in WalkDir::new(&prefix)
-            .into_iter()
-            .filter_entry(move |entry| {
-                let entry_path = entry.path();
-
-                if entry_path == meta {
-                    // Skip the meta file
-                    return false;
-                }
-
-                let file_name = entry_path.file_name();
-
-                if file_name == nm_osstr {
-                    // We don't want to skip node_modules themselves
-                    return true;
-                }
-
-                if file_name == bin_osstr {
-                    return false;
-                }
-
-                if file_name
-                    .expect("this should have a file name")
-                    .to_string_lossy()
-                    .starts_with('@')
-                {
-                    // Let scoped packages through.
-                    return true;
-                }
-
-                // See if we're looking at a package dir, presumably (or a straggler file).
-                if entry_path
-                    .parent()
-                    .expect("this must have a parent")
-                    .file_name()
-                    == nm_osstr
-                {
-                    let entry_subpath_path = entry_path
-                        .strip_prefix(&prefix)
-                        .expect("this should definitely be under the prefix");
-                    let entry_subpath =
-                        UniCase::from(entry_subpath_path.to_string_lossy().replace('\\', "/"));
-
-                    let actual = self
-                        .opts
-                        .actual_tree
-                        .as_ref()
-                        .and_then(|tree| tree.packages.get(&entry_subpath));
-                    let ideal = graph
-                        .node_at_path(entry_subpath_path)
-                        .and_then(|node| graph.node_lockfile_node(node.idx, false).ok());
-                    // If the package is not in the actual tree, or it doesn't
-                    // match up with what the ideal tree wants, it's
-                    // extraneous. We want to return true for those so we
-                    // delete them later.
-                    if ideal.is_some()
-                        && self
-                            .opts
-                            .actual_tree
-                            .as_ref()
-                            .map(|tree| tree.packages.contains_key(&entry_subpath))
-                            .unwrap_or(false)
-                        && actual == ideal.as_ref()
-                    {
-                        return false;
-                    } else {
-                        *extraneous += 1;
-                        return true;
-                    }
-                }
-
-                // We're not interested in any other files than the package dirs themselves.
-                false
-            })
-        {
-            let entry = entry?;
-            let entry_path = entry.path();
-            let file_name = entry_path.file_name();
-            if file_name == nm_osstr
-                || file_name == bin_osstr
-                || file_name
-                    .map(|s| s.to_string_lossy().starts_with('@'))
-                    .unwrap_or(false)
-            {
-                continue;
-            } else if entry.file_type().is_dir() {
-                if let Some(pb) = &self.opts.on_prune_progress {
-                    pb(entry_path);
-                }
-                tracing::trace!("Pruning extraneous directory: {}", entry.path().display());
-                async_std::fs::remove_dir_all(entry.path())
+        for path in extraneous {
+            if let Some(pb) = &self.opts.on_prune_progress {
+                pb(&path);
+            }
+            let ty = path
+                .symlink_metadata()
+                .io_context(|| {
+                    format!(
+                        "Failed to get file type from entry at {}.",
+                        path.display()
+                    )
+                })?
+                .file_type();
+            if ty.is_dir() {
+                tracing::trace!("Pruning extraneous directory: {}", path.display());
+                async_std::fs::remove_dir_all(&path)
                     .await
                     .io_context(|| {
                         format!(
                             "Failed to prune extraneous directory at {}",
-                            entry.path().display()
+                            path.display()
                         )
                     })?;
             } else {
-                if let Some(pb) = &self.opts.on_prune_progress {
-                    pb(entry_path);
-                }
-                tracing::trace!("Pruning extraneous file: {}", entry.path().display());
-                async_std::fs::remove_file(entry.path())
-                    .await
-                    .io_context(|| {
-                        format!(
-                            "Failed to prune extraneous file at {}",
-                            entry.path().display()
-                        )
-                    })?;
+                tracing::trace!("Pruning extraneous file: {}", path.display());
+                async_std::fs::remove_file(&path).await.io_context(|| {
+                    format!("Failed to prune extraneous file at {}", path.display())
+                })?;
             }
         }
 
@@ -239,6 +154,83 @@ impl HoistedLinker {
         Ok(extraneous_packages)
     }
 
+    /// Collects everything in a `node_modules` directory, and in those of the
+    /// packages in it, that the ideal tree has no place for.
+    fn find_extraneous(
+        &self,
+        graph: &Graph,
+        prefix: &Path,
+        node_modules: &Path,
+        extraneous: &mut Vec<PathBuf>,
+    ) -> Result<(), NodeMaintainerError> {
+        for entry in read_dir(node_modules)? {
+            let name = entry
+                .file_name()
+                .unwrap_or_default()
+                .to_string_lossy()
+                .into_owned();
+            if name == ".bin" || (name == META_FILE_NAME && node_modules == prefix) {
+                continue;
+            } else if name.starts_with('@') && is_real_dir(&entry) {
+                let scoped = read_dir(&entry)?;
+                let before = extraneous.len();
+                let mut kept = 0;
+                for package in scoped {
+                    kept += self.check_package(graph, prefix, &package, extraneous)? as usize;
+                }
+                if kept == 0 {
+                    // Nothing is left of this scope, so it can go altogether.
+                    extraneous.truncate(before);
+                    extraneous.push(entry);
+                }
+            } else {
+                self.check_package(graph, prefix, &entry, extraneous)?;
+            }
+        }
+        Ok(())
+    }
+
+    /// Checks a single entry of some `node_modules` directory, and returns
+    /// whether it gets to stay there.
+    fn check_package(
+        &self,
+        graph: &Graph,
+        prefix: &Path,
+        entry: &Path,
+        extraneous: &mut Vec<PathBuf>,
+    ) -> Result<bool, NodeMaintainerError> {
+        let subpath_path = entry
+            .strip_prefix(prefix)
+            .expect("this should definitely be under the prefix");
+        let subpath = UniCase::from(subpath_path.to_string_lossy().replace('\\', "/"));
+        let actual = self
+            .opts
+            .actual_tree
+            .as_ref()
+            .and_then(|tree| tree.packages.get(&subpath));
+        let ideal = graph
+            .node_at_path(subpath_path)
+            .and_then(|node| graph.node_lockfile_node(node.idx, false).ok());
+        if ideal.is_some() && actual == ideal.as_ref() && is_real_dir(entry) {
+            // This package stays as it is, but what it needed to have nested
+            // inside it might've changed.
+            let nested = entry.join("node_modules");
+            if is_real_dir(&nested) {
+                self.find_extraneous(graph, prefix, &nested, extraneous)?;
+            }
+            Ok(true)
+        } else if actual.is_some() || ideal.is_some() || !is_nested(subpath_path) {
+            // If the package is not in the actual tree, or it doesn't match
+            // up with what the ideal tree wants, it's extraneous.
+            extraneous.push(entry.to_owned());
+            Ok(false)
+        } else {
+            // Neither tree knows about this one, so it's part of the package
+            // it's nested in (for example, as a bundled dependency).
+            Ok(true)
+        }
+    }
+
     pub async fn extract(&self, graph: &Graph) -> Result<usize, NodeMaintainerError> {
         tracing::debug!("Extracting node_modules/...");
         let start = std::time::Instant::now();
@@ -467,3 +459,19 @@ impl HoistedLinker {
         )
     }
 }
+
+fn is_nested(subpath: &Path) -> bool {
+    subpath.iter().any(|segment| segment == "node_modules")
+}
+
+fn is_real_dir(path: &Path) -> bool {
+    path.symlink_metadata()
+        .map(|meta| meta.is_dir())
+        .unwrap_or(false)
+}
+
+fn read_dir(path: &Path) -> Result<Vec<PathBuf>, NodeMaintainerError> {
+    std::fs::read_dir(path)
+        .and_then(|entries| entries.map(|entry| Ok(entry?.path())).collect())
+        .io_context(|| format!("Failed to read contents of directory at {}", path.display()))
+}
-- 
2.43.0


From 5ba9e0b01e2bbabfd94bf5ce7a52bf45fa5b8ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 11/79] fix: link the bins of all packages, not only of newly
 extracted ones

---
 crates/node-maintainer/src/linkers/hoisted.rs | 43 +++++++------------
 .../node-maintainer/src/linkers/isolated.rs   | 34 +++++++++------
 crates/node-maintainer/src/linkers/mod.rs     | 17 ++++++++
 3 files changed, 52 insertions(+), 42 deletions(-)

diff --git a/crates/node-maintainer/src/linkers/hoisted.rs b/crates/node-maintainer/src/linkers/hoisted.rs
index 4271a05..b6fd440 100644
--- a/crates/node-maintainer/src/linkers/hoisted.rs
+++ b/crates/node-maintainer/src/linkers/hoisted.rs
@@ -11,7 +11,6 @@ use nassun::ExtractMode;
 use oro_common::BuildManifest;
 use petgraph::stable_graph::NodeIndex;
 use unicase::UniCase;
-use walkdir::WalkDir;
 
 use crate::error::{IoContext, NodeMaintainerError};
 use crate::graph::Graph;
@@ -115,22 +114,14 @@ impl HoistedLinker {
             let ty = path
                 .symlink_metadata()
                 .io_context(|| {
-                    format!(
-                        "Failed to get file type from entry at {}.",
-                        path.display()
-                    )
+                    format!("Failed to get file type from entry at {}.", path.display())
                 })?
                 .file_type();
             if ty.is_dir() {
                 tracing::trace!("Pruning extraneous directory: {}", path.display());
-                async_std::fs::remove_dir_all(&path)
-                    .await
-                    .io_context(|| {
-                        format!(
-                            "Failed to prune extraneous directory at {}",
-                            path.display()
-                        )
-                    })?;
+                async_std::fs::remove_dir_all(&path).await.io_context(|| {
+                    format!("Failed to prune extraneous directory at {}", path.display())
+                })?;
             } else {
                 tracing::trace!("Pruning extraneous file: {}", path.display());
                 async_std::fs::remove_file(&path).await.io_context(|| {
@@ -311,7 +302,6 @@ impl HoistedLinker {
                             || build_mani.scripts.contains_key("install")
                             || build_mani.scripts.contains_key("postinstall")
                             || build_mani.scripts.contains_key("prepare")
-                            || !build_mani.bin.is_empty()
                         {
                             pending_rebuild.lock().await.insert(child_idx);
                         }
@@ -351,21 +341,18 @@ impl HoistedLinker {
     pub async fn link_bins(&self, graph: &Graph) -> Result<usize, NodeMaintainerError> {
         let root = &self.opts.root;
         let linked = Arc::new(AtomicUsize::new(0));
-        let bin_file_name = Some(OsStr::new(".bin"));
-        let nm_file_name = Some(OsStr::new("node_modules"));
-        for entry in WalkDir::new(root.join("node_modules"))
-            .into_iter()
-            .filter_entry(|e| {
-                let path = e.path().file_name();
-                path == bin_file_name || path == nm_file_name
-            })
-        {
-            let entry = entry?;
-            if entry.path().file_name() == bin_file_name {
-                async_std::fs::remove_dir_all(entry.path()).await.io_context(|| format!("Failed to remove directory at {} while clearing out existing node_modules/.bin directories.", entry.path().display()))?;
-            }
+        // Bins are always linked from scratch, for packages that were already
+        // there as much as for new ones: any of the existing ones might belong
+        // to a package that has since been removed or replaced.
+        for idx in graph.inner.node_indices() {
+            let node_modules = if idx == graph.root {
+                root.join("node_modules")
+            } else {
+                self.package_dir(graph, idx).0.join("node_modules")
+            };
+            super::clear_bins(&node_modules)?;
         }
-        futures::stream::iter(self.pending_rebuild.lock().await.iter().copied())
+        futures::stream::iter(graph.inner.node_indices())
             .map(|idx| Ok((idx, linked.clone())))
             .try_for_each_concurrent(self.opts.concurrency, move |(idx, linked)| async move {
                 if idx == graph.root {
diff --git a/crates/node-maintainer/src/linkers/isolated.rs b/crates/node-maintainer/src/linkers/isolated.rs
index c184769..42fefaa 100644
--- a/crates/node-maintainer/src/linkers/isolated.rs
+++ b/crates/node-maintainer/src/linkers/isolated.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::{BinaryHeap, HashMap, HashSet},
+    collections::{HashMap, HashSet},
     path::{Path, PathBuf},
     sync::{
         atomic::{self, AtomicUsize},
@@ -20,7 +20,6 @@ use super::LinkerOptions;
 
 pub(crate) struct IsolatedLinker {
     pub(crate) pending_rebuild: Arc<Mutex<HashSet<NodeIndex>>>,
-    pub(crate) pending_bin_link: Arc<Mutex<BinaryHeap<NodeIndex>>>,
     pub(crate) mkdir_cache: Arc<DashSet<PathBuf>>,
     pub(crate) opts: LinkerOptions,
 }
@@ -29,7 +28,6 @@ impl IsolatedLinker {
     pub fn new(opts: LinkerOptions) -> Self {
         Self {
             pending_rebuild: Arc::new(Mutex::new(HashSet::new())),
-            pending_bin_link: Arc::new(Mutex::new(BinaryHeap::new())),
             mkdir_cache: Arc::new(DashSet::new()),
             opts,
         }
@@ -345,7 +343,6 @@ impl IsolatedLinker {
         let stream = futures::stream::iter(graph.inner.node_indices());
         let concurrent_count = Arc::new(AtomicUsize::new(0));
         let pending_rebuild = self.pending_rebuild.clone();
-        let pending_bin_link = self.pending_bin_link.clone();
         let actually_extracted = Arc::new(AtomicUsize::new(0));
         let total = graph.inner.node_count();
         let total_completed = Arc::new(AtomicUsize::new(0));
@@ -372,7 +369,6 @@ impl IsolatedLinker {
                     total_completed.clone(),
                     actually_extracted.clone(),
                     pending_rebuild.clone(),
-                    pending_bin_link.clone(),
                 ))
             })
             .try_for_each_concurrent(
@@ -383,7 +379,6 @@ impl IsolatedLinker {
                     total_completed,
                     actually_extracted,
                     pending_rebuild,
-                    pending_bin_link,
                 )| async move {
                     if child_idx == graph.root {
                         self.link_deps(graph, child_idx, store_ref, &root.join("node_modules"))
@@ -427,9 +422,6 @@ impl IsolatedLinker {
                         {
                             pending_rebuild.lock().await.insert(child_idx);
                         }
-                        if !build_mani.bin.is_empty() {
-                            pending_bin_link.lock().await.push(child_idx);
-                        }
                     }
 
                     self.link_deps(
@@ -482,8 +474,19 @@ impl IsolatedLinker {
         let store_ref = &store;
         let mut linked = 0;
 
-        let mut pending = self.pending_bin_link.lock().await;
-        while let Some(idx) = pending.pop() {
+        // Bins are always linked from scratch, for packages that were already
+        // there as much as for new ones: any of the existing ones might belong
+        // to a package that has since been removed or replaced.
+        for idx in graph.inner.node_indices() {
+            let node_modules = if idx == graph.root {
+                root.join("node_modules")
+            } else {
+                self.package_dir(graph, idx).0.join("node_modules")
+            };
+            super::clear_bins(&node_modules)?;
+        }
+
+        for idx in graph.inner.node_indices() {
             let added = self.link_dep_bins(graph, idx, root, store_ref).await?;
             linked += added;
         }
@@ -572,7 +575,7 @@ impl IsolatedLinker {
         let node_path = store_ref
             .join(package_dir_name(graph, node))
             .join("node_modules")
-            .join(&graph[node].name.to_string());
+            .join(graph[node].package.name());
         let build_mani = BuildManifest::from_path(node_path.join("package.json")).map_err(|e| {
             NodeMaintainerError::BuildManifestReadError(node_path.join("package.json"), e)
         })?;
@@ -584,12 +587,15 @@ impl IsolatedLinker {
                 store_ref
                     .join(package_dir_name(graph, edge.source()))
                     .join("node_modules")
-                    .join(&dep_node.name.to_string())
+                    .join(dep_node.package.name())
             };
             let dep_bin_dir = dep_store_dir.join("node_modules").join(".bin");
             for (name, path) in &build_mani.bin {
                 let to = dep_bin_dir.join(name);
-                let from = dep_store_dir.join("node_modules").join(name).join(path);
+                let from = dep_store_dir
+                    .join("node_modules")
+                    .join(graph[node].package.name())
+                    .join(path);
                 let name = name.clone();
                 let mkdir_cache = self.mkdir_cache.clone();
                 async_std::task::spawn_blocking(move || {
diff --git a/crates/node-maintainer/src/linkers/mod.rs b/crates/node-maintainer/src/linkers/mod.rs
index e6b52b4..d10c36b 100644
--- a/crates/node-maintainer/src/linkers/mod.rs
+++ b/crates/node-maintainer/src/linkers/mod.rs
@@ -440,6 +440,23 @@ pub(crate) fn supports_hardlink(src_dir: &Path, dest_dir: &Path) -> bool {
     supports_hardlink
 }
 
+/// Removes the `.bin` directory, if any, from the given `node_modules`.
+#[cfg(not(target_arch = "wasm32"))]
+pub(crate) fn clear_bins(node_modules: &Path) -> Result<(), NodeMaintainerError> {
+    let bin_dir = node_modules.join(".bin");
+    match bin_dir.symlink_metadata() {
+        Ok(meta) if meta.is_dir() => std::fs::remove_dir_all(&bin_dir),
+        Ok(_) => std::fs::remove_file(&bin_dir),
+        Err(_) => Ok(()),
+    }
+    .io_context(|| {
+        format!(
+            "Failed to clear out existing bins at {}.",
+            bin_dir.display()
+        )
+    })
+}
+
 #[cfg(not(target_arch = "wasm32"))]
 pub(crate) fn link_bin(from: &Path, to: &Path) -> Result<(), NodeMaintainerError> {
     #[cfg(windows)]
-- 
2.43.0


From 6b7d71f10a951ecf76b8491dc3b67c82a99b1ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 12/79] fix: don't fail to create directories that already
 exist

---
 crates/node-maintainer/src/linkers/mod.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/crates/node-maintainer/src/linkers/mod.rs b/crates/node-maintainer/src/linkers/mod.rs
index d10c36b..0cd49ff 100644
--- a/crates/node-maintainer/src/linkers/mod.rs
+++ b/crates/node-maintainer/src/linkers/mod.rs
@@ -508,12 +508,21 @@ pub(crate) fn mkdirp(
             true
         };
         if grandpa_present {
-            std::fs::create_dir(path).io_context(|| {
-                format!(
-                    "Failed to create directory {} while extracting.",
-                    path.display()
-                )
-            })?;
+            std::fs::create_dir(path)
+                .or_else(|e| {
+                    // Might've been there since before this run.
+                    if path.is_dir() {
+                        Ok(())
+                    } else {
+                        Err(e)
+                    }
+                })
+                .io_context(|| {
+                    format!(
+                        "Failed to create directory {} while extracting.",
+                        path.display()
+                    )
+                })?;
             cache.insert(path.to_path_buf());
         } else {
             std::fs::create_dir_all(path).io_context(|| {
-- 
2.43.0


From 43caa7376d181cb12995aa798a75f6e6d6c8ef8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:40 +0000
Subject: [PATCH 13/79] fix: never reuse the isolated store directory of
 another version of a package

---
 crates/node-maintainer/src/linkers/isolated.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/node-maintainer/src/linkers/isolated.rs b/crates/node-maintainer/src/linkers/isolated.rs
index 42fefaa..0b9fba4 100644
--- a/crates/node-maintainer/src/linkers/isolated.rs
+++ b/crates/node-maintainer/src/linkers/isolated.rs
@@ -644,7 +644,17 @@ fn package_dir_name(graph: &Graph, idx: NodeIndex) -> String {
 
     let mut name = node.name.to_string();
     name.push('@');
-    let (_, mut hex) = Integrity::from(subdir).to_hex();
+    // What's in there matters as much as where it goes: a directory for some
+    // other version must never be taken for this one's.
+    let resolved = node.package.resolved();
+    let (_, mut hex) = Integrity::from(format!(
+        "{subdir}\n{resolved:?}\n{resolved}\n{}",
+        resolved
+            .integrity()
+            .map(|integrity| integrity.to_string())
+            .unwrap_or_default()
+    ))
+    .to_hex();
     hex.truncate(8);
     name.push_str(&hex);
     name
-- 
2.43.0


From 2d74fcbd1f2eca62a8c54f94b31a7ce9cc41bfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 14/79] fix: prune links to packages that aren't dependencies
 any more in isolated mode

---
 crates/node-maintainer/src/linkers/hoisted.rs |  14 +-
 .../node-maintainer/src/linkers/isolated.rs   | 176 +++++++++---------
 crates/node-maintainer/src/linkers/mod.rs     |  14 ++
 3 files changed, 100 insertions(+), 104 deletions(-)

diff --git a/crates/node-maintainer/src/linkers/hoisted.rs b/crates/node-maintainer/src/linkers/hoisted.rs
index b6fd440..6cd2240 100644
--- a/crates/node-maintainer/src/linkers/hoisted.rs
+++ b/crates/node-maintainer/src/linkers/hoisted.rs
@@ -16,7 +16,7 @@ use crate::error::{IoContext, NodeMaintainerError};
 use crate::graph::Graph;
 use crate::{META_FILE_NAME, STORE_DIR_NAME};
 
-use super::LinkerOptions;
+use super::{is_real_dir, read_dir, LinkerOptions};
 
 pub(crate) struct HoistedLinker {
     pub(crate) pending_rebuild: Arc<Mutex<HashSet<NodeIndex>>>,
@@ -450,15 +450,3 @@ impl HoistedLinker {
 fn is_nested(subpath: &Path) -> bool {
     subpath.iter().any(|segment| segment == "node_modules")
 }
-
-fn is_real_dir(path: &Path) -> bool {
-    path.symlink_metadata()
-        .map(|meta| meta.is_dir())
-        .unwrap_or(false)
-}
-
-fn read_dir(path: &Path) -> Result<Vec<PathBuf>, NodeMaintainerError> {
-    std::fs::read_dir(path)
-        .and_then(|entries| entries.map(|entry| Ok(entry?.path())).collect())
-        .io_context(|| format!("Failed to read contents of directory at {}", path.display()))
-}
diff --git a/crates/node-maintainer/src/linkers/isolated.rs b/crates/node-maintainer/src/linkers/isolated.rs
index 0b9fba4..ee4fe1c 100644
--- a/crates/node-maintainer/src/linkers/isolated.rs
+++ b/crates/node-maintainer/src/linkers/isolated.rs
@@ -16,7 +16,7 @@ use ssri::Integrity;
 
 use crate::{error::IoContext, graph::Graph, NodeMaintainerError, META_FILE_NAME, STORE_DIR_NAME};
 
-use super::LinkerOptions;
+use super::{is_real_dir, read_dir, LinkerOptions};
 
 pub(crate) struct IsolatedLinker {
     pub(crate) pending_rebuild: Arc<Mutex<HashSet<NodeIndex>>>,
@@ -127,103 +127,24 @@ impl IsolatedLinker {
                         .join(pkg.name())
                         .join("node_modules")
                 };
-                let pkg_nm_ref = &pkg_nm;
 
                 let mut expected_deps = HashMap::new();
 
                 for edge in graph.inner.edges_directed(idx, Direction::Outgoing) {
                     let dep_pkg = &graph[edge.target()].package;
-                    let dep_store_dir = async_std::path::PathBuf::from(
-                        store_ref
-                            .join(package_dir_name(graph, edge.target()))
-                            .join("node_modules")
-                            .join(dep_pkg.name()),
-                    );
-                    let dep_nm_entry = async_std::path::PathBuf::from(pkg_nm.join(dep_pkg.name()));
-                    expected_deps.insert(dep_nm_entry, dep_store_dir);
+                    let dep_store_dir = store_ref
+                        .join(package_dir_name(graph, edge.target()))
+                        .join("node_modules")
+                        .join(dep_pkg.name());
+                    expected_deps.insert(pkg_nm.join(dep_pkg.name()), dep_store_dir);
                 }
 
-                if async_std::path::Path::new(&pkg_nm).exists().await {
-                    let expected_ref = Arc::new(expected_deps);
-
-                    async_std::fs::read_dir(&pkg_nm)
-                        .await
-                        .io_context(|| {
-                            format!(
-                                "Failed to read contents of node_modules at {}.",
-                                pkg_nm.display()
-                            )
-                        })?
-                        .map(|e| Ok((e, expected_ref.clone())))
-                        .try_for_each(move |(entry, expected)| async move {
-                            let entry = entry.io_context(|| {
-                                format!(
-                                    "Failed to read directory entry from prefix at {}.",
-                                    pkg_nm_ref.display()
-                                )
-                            })?;
-                            let path = entry.path();
-                            if let Some(target) = expected.get(&path) {
-                                let target = target.clone();
-                                let ty = entry.file_type().await.io_context(|| {
-                                    format!(
-                                        "Failed to get file type from entry at {}.",
-                                        entry.path().display()
-                                    )
-                                })?;
-                                if ty.is_file() {
-                                    async_std::fs::remove_file(&path).await.io_context(|| {
-                                        format!(
-                                            "Failed to delete file at {} while pruning node_modules.",
-                                            entry.path().display()
-                                        )
-                                    })?;
-                                } else if ty.is_dir() {
-                                    async_std::fs::remove_dir_all(&path).await.io_context(|| {
-                                        format!(
-                                            "Failed to rimraf contents of directory at {} while pruning node_modules.",
-                                            path.display()
-                                        )
-                                    })?;
-                                } else if ty.is_symlink() && target != path.read_link().await.io_context(|| format!("Failed to read symlink at {} while pruning node_modules.", path.display()))? {
-                                    if async_std::fs::remove_file(&path).await.is_err() {
-                                        async_std::fs::remove_dir_all(&path).await.io_context(|| {
-                                            format!(
-                                                "Failed to delete {} while pruning node_modules.",
-                                                path.display()
-                                            )
-                                        })?;
-                                    }
-                                } else {
-                                    #[cfg(windows)]
-                                    let path_clone = path.clone();
-                                    #[cfg(windows)]
-                                    if async_std::task::spawn_blocking(move || {
-                                        Ok::<_, std::io::Error>(
-                                            !junction::exists(&path_clone)?
-                                                || async_std::path::PathBuf::from(
-                                                    &junction::get_target(&path_clone)?,
-                                                ) != target,
-                                        )
-                                    })
-                                    .await.io_context(|| {
-                                        format!(
-                                            "Failed to check if {} is a junction while pruning node_modules.",
-                                            path.display()
-                                        )
-                                    })? && async_std::fs::remove_file(&path).await.is_err() {
-                                        async_std::fs::remove_dir_all(&path).await.io_context(|| {
-                                            format!(
-                                                "Failed to delete {} while pruning node_modules.",
-                                                path.display()
-                                            )
-                                        })?;
-                                    }
-                                }
-                            }
-                            Ok::<_, NodeMaintainerError>(())
-                        })
-                        .await?;
+                if pkg_nm.exists() {
+                    let is_root = idx == graph.root;
+                    async_std::task::spawn_blocking(move || {
+                        prune_links(&pkg_nm, &expected_deps, is_root)
+                    })
+                    .await?;
                 }
 
                 Ok::<_, NodeMaintainerError>(())
@@ -638,6 +559,79 @@ impl IsolatedLinker {
     }
 }
 
+/// Removes links to anything but expected dependencies from the given
+/// `node_modules`, and also anything else that isn't meant to be there.
+fn prune_links(
+    node_modules: &Path,
+    expected: &HashMap<PathBuf, PathBuf>,
+    is_root: bool,
+) -> Result<(), NodeMaintainerError> {
+    for entry in read_dir(node_modules)? {
+        let name = entry
+            .file_name()
+            .unwrap_or_default()
+            .to_string_lossy()
+            .into_owned();
+        if name == ".bin" || (is_root && (name == META_FILE_NAME || name == STORE_DIR_NAME)) {
+            continue;
+        } else if name.starts_with('@') && is_real_dir(&entry) {
+            for package in read_dir(&entry)? {
+                prune_link(&package, expected, is_root)?;
+            }
+            if is_root {
+                // Only goes away if there's nothing left in this scope.
+                let _ = std::fs::remove_dir(&entry);
+            }
+        } else {
+            prune_link(&entry, expected, is_root)?;
+        }
+    }
+    Ok(())
+}
+
+fn prune_link(
+    entry: &Path,
+    expected: &HashMap<PathBuf, PathBuf>,
+    is_root: bool,
+) -> Result<(), NodeMaintainerError> {
+    let keep = match (expected.get(entry), link_target(entry)) {
+        (Some(target), Some(actual)) => {
+            let relative = entry
+                .parent()
+                .and_then(|parent| pathdiff::diff_paths(target, parent));
+            &actual == target || Some(actual) == relative
+        }
+        // Only links are ever put there for dependencies.
+        (Some(_), None) => false,
+        // Packages might have things of their own in their node_modules (for
+        // example, bundled dependencies).
+        (None, actual) => !is_root && actual.is_none(),
+    };
+    if !keep {
+        if is_real_dir(entry) {
+            std::fs::remove_dir_all(entry)
+        } else {
+            std::fs::remove_file(entry).or_else(|_| std::fs::remove_dir_all(entry))
+        }
+        .io_context(|| {
+            format!(
+                "Failed to delete {} while pruning node_modules.",
+                entry.display()
+            )
+        })?;
+    }
+    Ok(())
+}
+
+/// Where a symlink or junction leads, if that's what this is.
+fn link_target(path: &Path) -> Option<PathBuf> {
+    #[cfg(windows)]
+    if junction::exists(path).unwrap_or(false) {
+        return junction::get_target(path).ok();
+    }
+    std::fs::read_link(path).ok()
+}
+
 fn package_dir_name(graph: &Graph, idx: NodeIndex) -> String {
     let node = &graph[idx];
     let subdir = graph.node_path_string(idx);
diff --git a/crates/node-maintainer/src/linkers/mod.rs b/crates/node-maintainer/src/linkers/mod.rs
index 0cd49ff..beb38c5 100644
--- a/crates/node-maintainer/src/linkers/mod.rs
+++ b/crates/node-maintainer/src/linkers/mod.rs
@@ -538,3 +538,17 @@ pub(crate) fn mkdirp(
     }
     Ok(())
 }
+
+#[cfg(not(target_arch = "wasm32"))]
+pub(crate) fn is_real_dir(path: &Path) -> bool {
+    path.symlink_metadata()
+        .map(|meta| meta.is_dir())
+        .unwrap_or(false)
+}
+
+#[cfg(not(target_arch = "wasm32"))]
+pub(crate) fn read_dir(path: &Path) -> Result<Vec<PathBuf>, NodeMaintainerError> {
+    std::fs::read_dir(path)
+        .and_then(|entries| entries.map(|entry| Ok(entry?.path())).collect())
+        .io_context(|| format!("Failed to read contents of directory at {}", path.display()))
+}
-- 
2.43.0


From 2a6f7f97e42ba56b2e2c3d13654474e794921df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:26 +0000
Subject: [PATCH 15/79] fix: only record packages as installed once they're
 completely installed

---
 crates/node-maintainer/src/linkers/hoisted.rs |  3 --
 .../node-maintainer/src/linkers/isolated.rs   |  7 ---
 crates/node-maintainer/src/linkers/mod.rs     | 46 ++++++++++++++++++-
 3 files changed, 45 insertions(+), 11 deletions(-)

diff --git a/crates/node-maintainer/src/linkers/hoisted.rs b/crates/node-maintainer/src/linkers/hoisted.rs
index 6cd2240..7a20094 100644
--- a/crates/node-maintainer/src/linkers/hoisted.rs
+++ b/crates/node-maintainer/src/linkers/hoisted.rs
@@ -325,9 +325,6 @@ impl HoistedLinker {
                 },
             )
             .await?;
-        let meta = node_modules.join(META_FILE_NAME);
-        std::fs::write(&meta, graph.to_kdl()?.to_string())
-            .io_context(|| format!("Failed to write Orogene meta file to {}.", meta.display()))?;
         let extracted_count = actually_extracted.load(atomic::Ordering::SeqCst);
 
         tracing::debug!(
diff --git a/crates/node-maintainer/src/linkers/isolated.rs b/crates/node-maintainer/src/linkers/isolated.rs
index ee4fe1c..62cd814 100644
--- a/crates/node-maintainer/src/linkers/isolated.rs
+++ b/crates/node-maintainer/src/linkers/isolated.rs
@@ -372,13 +372,6 @@ impl IsolatedLinker {
                 },
             )
             .await?;
-        let meta = node_modules.join(META_FILE_NAME);
-        std::fs::write(&meta, graph.to_kdl()?.to_string()).io_context(|| {
-            format!(
-                "Failed to write Orogene meta file into node_modules, at {}.",
-                meta.display()
-            )
-        })?;
         let extracted_count = actually_extracted.load(atomic::Ordering::SeqCst);
 
         tracing::debug!(
diff --git a/crates/node-maintainer/src/linkers/mod.rs b/crates/node-maintainer/src/linkers/mod.rs
index beb38c5..0822109 100644
--- a/crates/node-maintainer/src/linkers/mod.rs
+++ b/crates/node-maintainer/src/linkers/mod.rs
@@ -24,7 +24,7 @@ use petgraph::stable_graph::NodeIndex;
 #[cfg(not(target_arch = "wasm32"))]
 use crate::{
     error::IoContext, graph::Graph, Lockfile, NodeMaintainerError, ProgressHandler, PruneProgress,
-    ScriptLineHandler, ScriptStartHandler,
+    ScriptLineHandler, ScriptStartHandler, META_FILE_NAME,
 };
 
 #[cfg(not(target_arch = "wasm32"))]
@@ -76,6 +76,7 @@ impl Linker {
         &self,
         #[allow(dead_code)] graph: &Graph,
     ) -> Result<usize, NodeMaintainerError> {
+        self.forget_actual_tree()?;
         match self {
             #[cfg(not(target_arch = "wasm32"))]
             Self::Isolated(isolated) => isolated.prune(graph).await,
@@ -90,6 +91,7 @@ impl Linker {
         &self,
         #[allow(dead_code)] graph: &Graph,
     ) -> Result<usize, NodeMaintainerError> {
+        self.forget_actual_tree()?;
         match self {
             #[cfg(not(target_arch = "wasm32"))]
             Self::Isolated(isolated) => isolated.extract(graph).await,
@@ -119,6 +121,48 @@ impl Linker {
             "Ran lifecycle scripts in {}ms.",
             start.elapsed().as_millis()
         );
+        self.record_actual_tree(graph)
+    }
+
+    #[cfg(not(target_arch = "wasm32"))]
+    fn opts(&self) -> Option<&LinkerOptions> {
+        match self {
+            Self::Isolated(isolated) => Some(&isolated.opts),
+            Self::Hoisted(hoisted) => Some(&hoisted.opts),
+            Self::Null => None,
+        }
+    }
+
+    /// Removes the record of what's in `node_modules`. It's not to be trusted
+    /// while things are being changed: if that never gets to complete, there's
+    /// no telling which packages are only partly there, or have yet to run
+    /// their scripts.
+    #[cfg(not(target_arch = "wasm32"))]
+    fn forget_actual_tree(&self) -> Result<(), NodeMaintainerError> {
+        if let Some(opts) = self.opts() {
+            let meta = opts.root.join("node_modules").join(META_FILE_NAME);
+            if meta.symlink_metadata().is_ok() {
+                std::fs::remove_file(&meta).io_context(|| {
+                    format!("Failed to remove Orogene meta file at {}.", meta.display())
+                })?;
+            }
+        }
+        Ok(())
+    }
+
+    /// Records that everything in the graph is completely installed.
+    #[cfg(not(target_arch = "wasm32"))]
+    fn record_actual_tree(&self, graph: &Graph) -> Result<(), NodeMaintainerError> {
+        if let Some(opts) = self.opts() {
+            let node_modules = opts.root.join("node_modules");
+            let meta = node_modules.join(META_FILE_NAME);
+            let kdl = graph.to_kdl()?.to_string();
+            std::fs::create_dir_all(node_modules)
+                .and_then(|_| std::fs::write(&meta, kdl))
+                .io_context(|| {
+                    format!("Failed to write Orogene meta file to {}.", meta.display())
+                })?;
+        }
         Ok(())
     }
 
-- 
2.43.0


From 7f01a8a92ac02426aedbcf0864b1c6d6064e0ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:26 +0000
Subject: [PATCH 16/79] fix: don't touch node_modules while resolving

---
 crates/node-maintainer/src/resolver.rs | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/crates/node-maintainer/src/resolver.rs b/crates/node-maintainer/src/resolver.rs
index cd63f7c..31cc3ae 100644
--- a/crates/node-maintainer/src/resolver.rs
+++ b/crates/node-maintainer/src/resolver.rs
@@ -18,8 +18,6 @@ use petgraph::visit::EdgeRef;
 use petgraph::Direction;
 use unicase::UniCase;
 
-#[cfg(not(target_arch = "wasm32"))]
-use crate::error::IoContext;
 use crate::error::NodeMaintainerError;
 use crate::graph::{DepType, Edge, Graph, Node};
 use crate::maintainer::{ProgressAdded, ProgressHandler};
@@ -581,16 +579,6 @@ impl<'a> Resolver<'a> {
             .await
             .ok()
             .and_then(|lock| Lockfile::from_kdl(lock).ok());
-        if self.actual_tree.is_none() && meta.exists() {
-            // If anything went wrong, we go ahead and delete the meta file,
-            // if it exists, because it's probably corrupted.
-            async_std::fs::remove_file(&meta).await.io_context(|| {
-                format!(
-                    "Failed to remove Orogene meta file from node_modules, at {}",
-                    meta.display()
-                )
-            })?;
-        }
         Ok(())
     }
 }
-- 
2.43.0


From b269b2a72a2b165993e782712afe79a75daeb08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:26 +0000
Subject: [PATCH 17/79] fix: write lockfiles atomically

---
 crates/node-maintainer/src/maintainer.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/node-maintainer/src/maintainer.rs b/crates/node-maintainer/src/maintainer.rs
index ad7f936..c720518 100644
--- a/crates/node-maintainer/src/maintainer.rs
+++ b/crates/node-maintainer/src/maintainer.rs
@@ -505,7 +505,14 @@ impl NodeMaintainer {
     #[cfg(not(target_arch = "wasm32"))]
     pub async fn write_lockfile(&self, path: impl AsRef<Path>) -> Result<(), NodeMaintainerError> {
         let path = path.as_ref();
-        fs::write(path, self.graph.to_kdl()?.to_string())
+        // Written on the side first, so that there's no point at which only
+        // part of a lockfile is there.
+        let mut temp = path.as_os_str().to_owned();
+        temp.push(".tmp");
+        fs::write(&temp, self.graph.to_kdl()?.to_string())
+            .await
+            .io_context(|| format!("Failed to write lockfile to {}", path.display()))?;
+        fs::rename(&temp, path)
             .await
             .io_context(|| format!("Failed to write lockfile to {}", path.display()))?;
         Ok(())
-- 
2.43.0


From 766108ac1ed5b6367a9ec0bef72653faa4079eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:26 +0000
Subject: [PATCH 18/79] fix: run the scripts of packages that depend on each
 other

---
 crates/node-maintainer/src/linkers/mod.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/node-maintainer/src/linkers/mod.rs b/crates/node-maintainer/src/linkers/mod.rs
index 0822109..bfb0676 100644
--- a/crates/node-maintainer/src/linkers/mod.rs
+++ b/crates/node-maintainer/src/linkers/mod.rs
@@ -200,15 +200,20 @@ impl Linker {
             .iter()
             .copied()
             .collect::<Vec<_>>();
+        // Whether one package has to wait for another one. Packages that depend
+        // on each other can't, so those run in no particular order.
+        let waits_for = |idx, dep| {
+            idx != dep
+                && petgraph::algo::has_path_connecting(&graph.inner, idx, dep, None)
+                && !petgraph::algo::has_path_connecting(&graph.inner, dep, idx, None)
+        };
         // Map of package to the set of packages that need to run before it can run.
         let dependencies = pending
             .iter()
             .map(|idx| {
                 let mut deps = HashSet::new();
                 for dep in &pending {
-                    if dep != idx
-                        && petgraph::algo::has_path_connecting(&graph.inner, *idx, *dep, None)
-                    {
+                    if waits_for(*idx, *dep) {
                         deps.insert(*dep);
                     }
                 }
@@ -222,9 +227,7 @@ impl Linker {
                 .map(|idx| {
                     let mut deps = HashSet::new();
                     for dep in &pending {
-                        if dep != idx
-                            && petgraph::algo::has_path_connecting(&graph.inner, *dep, *idx, None)
-                        {
+                        if waits_for(*dep, *idx) {
                             deps.insert(*dep);
                         }
                     }
-- 
2.43.0


From c205b5c75e90c17c21b8b48c708c2e50d38ef254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:19 +0000
Subject: [PATCH 19/79] fix: always link the same one of several bins of the
 same name

Which one won depended on timing, and in hoisted mode they'd even get in
each other's way, failing the apply.
---
 crates/node-maintainer/src/linkers/hoisted.rs  | 15 +++++++++++++--
 crates/node-maintainer/src/linkers/isolated.rs |  7 ++++++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/crates/node-maintainer/src/linkers/hoisted.rs b/crates/node-maintainer/src/linkers/hoisted.rs
index 7a20094..223d522 100644
--- a/crates/node-maintainer/src/linkers/hoisted.rs
+++ b/crates/node-maintainer/src/linkers/hoisted.rs
@@ -349,9 +349,20 @@ impl HoistedLinker {
             };
             super::clear_bins(&node_modules)?;
         }
-        futures::stream::iter(graph.inner.node_indices())
+        // Packages that share a `.bin` may have bins of the same name. Linking
+        // them one by one, in order of location, makes sure that it's always
+        // the same one that wins.
+        let mut nodes = graph.inner.node_indices().collect::<Vec<_>>();
+        nodes.sort_by_cached_key(|idx| {
+            graph
+                .node_path(*idx)
+                .iter()
+                .map(|x| x.to_string())
+                .collect::<Vec<_>>()
+        });
+        futures::stream::iter(nodes)
             .map(|idx| Ok((idx, linked.clone())))
-            .try_for_each_concurrent(self.opts.concurrency, move |(idx, linked)| async move {
+            .try_for_each(move |(idx, linked)| async move {
                 if idx == graph.root {
                     return Ok(());
                 }
diff --git a/crates/node-maintainer/src/linkers/isolated.rs b/crates/node-maintainer/src/linkers/isolated.rs
index 62cd814..06e388f 100644
--- a/crates/node-maintainer/src/linkers/isolated.rs
+++ b/crates/node-maintainer/src/linkers/isolated.rs
@@ -400,7 +400,12 @@ impl IsolatedLinker {
             super::clear_bins(&node_modules)?;
         }
 
-        for idx in graph.inner.node_indices() {
+        // Dependencies of the same package may have bins of the same name.
+        // Linking them in order of name makes sure that it's always the same
+        // one that wins.
+        let mut nodes = graph.inner.node_indices().collect::<Vec<_>>();
+        nodes.sort_by_cached_key(|idx| graph[*idx].package.name().to_string());
+        for idx in nodes {
             let added = self.link_dep_bins(graph, idx, root, store_ref).await?;
             linked += added;
         }
-- 
2.43.0


From a0fb9544057b56df3c48b3617a6270c81b05d928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:31 +0000
Subject: [PATCH 20/79] fix: fail in locked mode if the lockfile can't be read

It used to be ignored, and overwritten, as if there were none.
---
 crates/node-maintainer/src/maintainer.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/node-maintainer/src/maintainer.rs b/crates/node-maintainer/src/maintainer.rs
index c720518..fbed1c0 100644
--- a/crates/node-maintainer/src/maintainer.rs
+++ b/crates/node-maintainer/src/maintainer.rs
@@ -299,6 +299,9 @@ impl NodeMaintainerOptions {
                     .and_then(Lockfile::from_kdl)
                 {
                     Ok(lock) => return Ok(Some(lock)),
+                    // Without knowing what it says, there's no telling whether
+                    // the lockfile is up to date.
+                    Err(e) if self.locked => return Err(e),
                     Err(e) => tracing::debug!("Failed to parse existing package-lock.kdl: {}", e),
                 }
             }
@@ -310,6 +313,9 @@ impl NodeMaintainerOptions {
                     .and_then(Lockfile::from_npm)
                 {
                     Ok(lock) => return Ok(Some(lock)),
+                    // Without knowing what it says, there's no telling whether
+                    // the lockfile is up to date.
+                    Err(e) if self.locked => return Err(e),
                     Err(e) => tracing::debug!("Failed to parse existing package-lock.json: {}", e),
                 }
             }
@@ -321,6 +327,7 @@ impl NodeMaintainerOptions {
                     .and_then(Lockfile::from_npm)
                 {
                     Ok(lock) => return Ok(Some(lock)),
+                    Err(e) if self.locked => return Err(e),
                     Err(e) => {
                         tracing::debug!("Failed to parse existing npm-shrinkwrap.json: {}", e)
                     }
-- 
2.43.0


From fa2243346da887dcdce4754d37308fd72bf3bdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:42 +0000
Subject: [PATCH 21/79] fix: don't fail packages because of what their scripts
 print

Any output that isn't valid UTF-8 used to fail the whole apply.
---
 crates/node-maintainer/src/linkers/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/node-maintainer/src/linkers/mod.rs b/crates/node-maintainer/src/linkers/mod.rs
index bfb0676..723cba1 100644
--- a/crates/node-maintainer/src/linkers/mod.rs
+++ b/crates/node-maintainer/src/linkers/mod.rs
@@ -357,12 +357,14 @@ impl Linker {
                 async_std::task::spawn_blocking(move || {
                     let _enter = stdout_span.enter();
                     if let Some(stdout) = stdout {
-                        for line in BufReader::new(stdout).lines() {
+                        // Scripts may print anything, not just valid UTF-8.
+                        for line in BufReader::new(stdout).split(b'\n') {
                             let line = line.io_context(|| {
                                 format!(
                                     "Failed to read line from stdout while executing script for {stdout_resolved}",
                                 )
                             })?;
+                            let line = String::from_utf8_lossy(line.strip_suffix(b"\r").unwrap_or(&line));
                             tracing::debug!("stdout::{stdout_name}::{event}: {line}");
                             if let Some(on_script_line) = &stdout_on_line {
                                 on_script_line(&line);
@@ -374,12 +376,14 @@ impl Linker {
                 async_std::task::spawn_blocking(move || {
                     let _enter = stderr_span.enter();
                     if let Some(stderr) = stderr {
-                        for line in BufReader::new(stderr).lines() {
+                        // Scripts may print anything, not just valid UTF-8.
+                        for line in BufReader::new(stderr).split(b'\n') {
                             let line = line.io_context(|| {
                                 format!(
-                                    "Failed to read line from stdout while executing script for {stderr_resolved}",
+                                    "Failed to read line from stderr while executing script for {stderr_resolved}",
                                 )
                             })?;
+                            let line = String::from_utf8_lossy(line.strip_suffix(b"\r").unwrap_or(&line));
                             tracing::debug!("stderr::{stderr_name}::{event_clone}: {line}");
                             if let Some(on_script_line) = &stderr_on_line {
                                 on_script_line(&line);
-- 
2.43.0


From bc7c1d2a8c0e08dbe198546ba4cae6e91fff3d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:53 +0000
Subject: [PATCH 22/79] fix: don't reject packages requested by dist-tag when
 validating the graph

---
 crates/node-maintainer/src/graph.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/node-maintainer/src/graph.rs b/crates/node-maintainer/src/graph.rs
index b63e355..c545425 100644
--- a/crates/node-maintainer/src/graph.rs
+++ b/crates/node-maintainer/src/graph.rs
@@ -341,7 +341,11 @@ impl Graph {
                 if let Some(dep_idx) = self.resolve_dep(dependent.idx, dep_name) {
                     let dependency = &self.inner[dep_idx];
 
-                    if !dependency.package.resolved().satisfies(&edge.requested)? {
+                    // Only what it was resolved to can tell whether a requirement
+                    // like a dist-tag is satisfied.
+                    let is_target =
+                        self.inner.edge_endpoints(*edge_idx) == Some((dependent.idx, dep_idx));
+                    if !is_target && !dependency.package.resolved().satisfies(&edge.requested)? {
                         return Err(GraphValidationError(format!(
                             "Dependency {:?} does not satisfy requirement {} from {:?}",
                             dependency.package.resolved(),
-- 
2.43.0


From 4ff3c39aff75a8ceef5db8ff4afc60f66a39f959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:06 +0000
Subject: [PATCH 23/79] fix: decode hex shasums into integrity hashes

---
 crates/nassun/src/resolver.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/nassun/src/resolver.rs b/crates/nassun/src/resolver.rs
index 989223e..0e74725 100644
--- a/crates/nassun/src/resolver.rs
+++ b/crates/nassun/src/resolver.rs
@@ -286,7 +286,8 @@ impl PackageResolver {
                             v.dist
                                 .shasum
                                 .as_ref()
-                                .map(|s| format!("sha1-{}", s).parse())
+                                // `shasum` is in hex, unlike `integrity`.
+                                .map(|s| Integrity::from_hex(s, ssri::Algorithm::Sha1))
                         })
                         .transpose()?,
                 })
-- 
2.43.0


From 065d8bbcea6bbfffd7d6d511029f7f007168439b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:06 +0000
Subject: [PATCH 24/79] fix: look for directories.bin in the package, and keep
 bins inside of it

---
 crates/oro-common/src/build_manifest.rs | 54 +++++++++++++++----------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/crates/oro-common/src/build_manifest.rs b/crates/oro-common/src/build_manifest.rs
index 27d0800..a8d03f9 100644
--- a/crates/oro-common/src/build_manifest.rs
+++ b/crates/oro-common/src/build_manifest.rs
@@ -1,7 +1,7 @@
 use std::{
     collections::HashMap,
     ffi::OsStr,
-    path::{Path, PathBuf},
+    path::{Component, Path, PathBuf},
 };
 
 use serde::{Deserialize, Serialize};
@@ -47,7 +47,7 @@ impl BuildManifest {
         let path = path.as_ref();
         let pkg_str = std::fs::read_to_string(path)?;
         let raw: RawBuildManifest = serde_json::from_str(&pkg_str)?;
-        Self::normalize(raw)
+        Self::normalize(raw, path.parent().unwrap_or(Path::new("")))
     }
 
     /// Create a new [`BuildManifest`] from an already fully loaded [`Manifest`],
@@ -61,10 +61,10 @@ impl BuildManifest {
             directories: manifest.directories.clone(),
             scripts: manifest.scripts.clone(),
         };
-        Self::normalize(raw)
+        Self::normalize(raw, Path::new(""))
     }
 
-    fn normalize(raw: RawBuildManifest) -> std::io::Result<Self> {
+    fn normalize(raw: RawBuildManifest, package_dir: &Path) -> std::io::Result<Self> {
         let mut bin_map = HashMap::new();
         if let Some(Bin::Hash(bins)) = raw.bin {
             for (name, bin) in bins {
@@ -93,14 +93,17 @@ impl BuildManifest {
             bin: Some(bin_dir), ..
         }) = raw.directories
         {
-            for entry in WalkDir::new(bin_dir) {
-                let entry = entry?;
-                let path = entry.path();
-                if path.starts_with(".") {
-                    continue;
-                }
-                if let Some(file_name) = path.file_name() {
-                    bin_map.insert(file_name.to_string_lossy().to_string(), path.into());
+            let bin_dir = package_dir.join(contained(&bin_dir));
+            if bin_dir.is_dir() {
+                for entry in WalkDir::new(&bin_dir).sort_by_file_name() {
+                    let entry = entry?;
+                    let file_name = entry.file_name().to_string_lossy();
+                    if entry.file_type().is_dir() || file_name.starts_with('.') {
+                        continue;
+                    }
+                    let path = entry.path();
+                    let path = path.strip_prefix(package_dir).unwrap_or(path);
+                    bin_map.insert(file_name.to_string(), path.into());
                 }
             }
         };
@@ -133,16 +136,7 @@ impl BuildManifest {
 
             let base = base.unwrap();
 
-            let bin_target = Path::new("/")
-                .join(bin.to_string_lossy().to_string())
-                .strip_prefix(
-                    #[cfg(windows)]
-                    "\\",
-                    #[cfg(not(windows))]
-                    "/",
-                )
-                .expect("We added this ourselves")
-                .to_path_buf();
+            let bin_target = contained(bin);
             if bin_target == Path::new("") {
                 continue;
             }
@@ -155,3 +149,19 @@ impl BuildManifest {
         })
     }
 }
+
+/// Resolves a path as if the package's directory was the filesystem root, so
+/// the result is always inside of it.
+fn contained(path: &Path) -> PathBuf {
+    let mut resolved = PathBuf::new();
+    for component in path.components() {
+        match component {
+            Component::Normal(part) => resolved.push(part),
+            Component::ParentDir => {
+                resolved.pop();
+            }
+            _ => {}
+        }
+    }
+    resolved
+}
-- 
2.43.0


From 015be215c44ec2e1affec79ecb2d22cfc8e893a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:06 +0000
Subject: [PATCH 25/79] fix: recover from damaged cache index entries

---
 crates/nassun/src/package.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/crates/nassun/src/package.rs b/crates/nassun/src/package.rs
index bffe46d..659a7fc 100644
--- a/crates/nassun/src/package.rs
+++ b/crates/nassun/src/package.rs
@@ -321,15 +321,15 @@ impl fmt::Debug for Package {
 
 #[cfg(not(target_arch = "wasm32"))]
 fn clean_from_cache(cache: &Path, sri: &Integrity, entry: cacache::Metadata) -> Result<()> {
-    let index = rkyv::check_archived_root::<TarballIndex>(
-        entry
-            .raw_metadata
-            .as_ref()
-            .ok_or_else(|| NassunError::CacheMissingIndexError("".into()))?,
-    )
-    .map_err(|e| NassunError::DeserializeCacheError(e.to_string()))?;
-    for (sri, _) in index.files.values() {
-        let sri: Integrity = sri.as_str().parse()?;
+    // If the index itself is damaged, there's no telling what its files were.
+    let index = entry
+        .raw_metadata
+        .as_ref()
+        .and_then(|data| rkyv::check_archived_root::<TarballIndex>(data).ok());
+    for (sri, _) in index.iter().flat_map(|index| index.files.values()) {
+        let Ok(sri) = sri.parse::<Integrity>() else {
+            continue;
+        };
         match cacache::remove_hash_sync(cache, &sri) {
             Ok(_) => {}
             // We don't care if the file doesn't exist.
-- 
2.43.0


From 6b0ced3e55782818faeec9451abb313e3ec40312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:06 +0000
Subject: [PATCH 26/79] fix: refuse dependency names that lead outside of
 node_modules

---
 crates/node-maintainer/src/error.rs    | 10 ++++++++++
 crates/node-maintainer/src/resolver.rs | 20 ++++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/crates/node-maintainer/src/error.rs b/crates/node-maintainer/src/error.rs
index e3459be..3c66197 100644
--- a/crates/node-maintainer/src/error.rs
+++ b/crates/node-maintainer/src/error.rs
@@ -8,6 +8,16 @@ use crate::{NpmPackageLock, NpmPackageLockEntry};
 #[allow(clippy::large_enum_variant)]
 #[derive(Debug, Error, Diagnostic)]
 pub enum NodeMaintainerError {
+    /// A package depends on something under a name that can't be used for a
+    /// directory inside `node_modules`.
+    #[error("`{1}` has a dependency with an invalid name: `{0}`")]
+    #[diagnostic(
+        code(node_maintainer::invalid_dependency_name),
+        url(docsrs),
+        help("Dependency names can have a scope, and no part of them can be empty, start with a period, or contain slashes.")
+    )]
+    InvalidDependencyName(String, String),
+
     /// Unsupported resolved URL scheme
     #[error("Unsupported resolved URL scheme")]
     #[diagnostic(code(node_maintainer::kdl::unsupported_url_scheme), url(docsrs))]
diff --git a/crates/node-maintainer/src/resolver.rs b/crates/node-maintainer/src/resolver.rs
index 31cc3ae..be8952a 100644
--- a/crates/node-maintainer/src/resolver.rs
+++ b/crates/node-maintainer/src/resolver.rs
@@ -29,6 +29,19 @@ use crate::{Lockfile, LockfileNode};
 /// the resolver concludes that there's no end to it.
 const MAX_SELF_NESTING: usize = 4;
 
+/// Whether a dependency by this name can have a directory of its own inside
+/// of `node_modules`, without getting in the way of anything else.
+fn is_installable_name(name: &str) -> bool {
+    let is_installable_part =
+        |part: &str| !part.is_empty() && !part.starts_with('.') && !part.contains(['/', '\\']);
+    let unscoped = match name.strip_prefix('@').and_then(|name| name.split_once('/')) {
+        Some((scope, name)) if is_installable_part(scope) => name,
+        Some(_) => return false,
+        None => name,
+    };
+    is_installable_part(unscoped) && unscoped != "node_modules"
+}
+
 fn path_string(path: &VecDeque<UniCase<String>>) -> UniCase<String> {
     UniCase::from(
         path.iter()
@@ -126,6 +139,13 @@ impl<'a> Resolver<'a> {
                         names.insert(name.clone());
                     }
 
+                    if !is_installable_name(&name) {
+                        return Err(NodeMaintainerError::InvalidDependencyName(
+                            name.to_string(),
+                            self.graph[node_idx].package.name().to_string(),
+                        ));
+                    }
+
                     let dep = NodeDependency {
                         name: name.clone(),
                         spec,
-- 
2.43.0


From 120b16f8517490c37a6b345bfc16958a5989a57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:07 +0000
Subject: [PATCH 27/79] fix: use full tarball entry paths, and keep them inside
 the package

---
 crates/nassun/src/tarball.rs | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/crates/nassun/src/tarball.rs b/crates/nassun/src/tarball.rs
index 35472b0..58a4a76 100644
--- a/crates/nassun/src/tarball.rs
+++ b/crates/nassun/src/tarball.rs
@@ -5,7 +5,7 @@ use std::io::Write;
 #[cfg(not(target_arch = "wasm32"))]
 use std::io::{Read, Seek};
 #[cfg(not(target_arch = "wasm32"))]
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::pin::Pin;
 use std::task::{Context, Poll};
 #[cfg(not(target_arch = "wasm32"))]
@@ -243,14 +243,21 @@ impl TempTarball {
             })?;
             let header = file.header();
             let mode = header.mode().unwrap_or(0o644) | 0o600;
-            let entry_path = header.path().map_err(|e| {
+            let entry_type = header.entry_type();
+            // NOTE: this is not `header.path()`, because long paths are not
+            // (entirely) in the entry's own header.
+            let entry_path = file.path().map_err(|e| {
                 NassunError::ExtractIoError(e, None, "reading path from entry header.".into())
             })?;
-            let entry_subpath = strip_one(&entry_path)
-                .unwrap_or_else(|| entry_path.as_ref())
-                .to_path_buf();
+            let Some(entry_subpath) = contained_subpath(&entry_path) else {
+                tracing::warn!(
+                    "Skipping tarball entry that would be extracted outside of the package directory: {}",
+                    entry_path.display()
+                );
+                continue;
+            };
             let path = dir.join(&entry_subpath);
-            if let tar::EntryType::Regular = header.entry_type() {
+            if let tar::EntryType::Regular = entry_type {
                 let parent = path.parent().unwrap();
                 mkdirp(parent, &created)?;
 
@@ -424,6 +431,21 @@ fn strip_one(path: &Path) -> Option<&Path> {
     comps.next().map(|_| comps.as_path())
 }
 
+/// Path of an entry within the package directory, or `None` if it has none.
+#[cfg(not(target_arch = "wasm32"))]
+fn contained_subpath(entry_path: &Path) -> Option<PathBuf> {
+    let subpath = strip_one(entry_path)?;
+    let mut contained = PathBuf::new();
+    for comp in subpath.components() {
+        match comp {
+            Component::Normal(part) => contained.push(part),
+            Component::CurDir => {}
+            _ => return None,
+        }
+    }
+    (!contained.as_os_str().is_empty()).then_some(contained)
+}
+
 #[cfg(not(target_arch = "wasm32"))]
 pub(crate) fn tarball_key(integrity: &Integrity) -> String {
     format!("nassun::package::{integrity}")
-- 
2.43.0


From 7f3d704610e47d9c586e6f653c89d2aac4236993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:25 +0000
Subject: [PATCH 28/79] fix: replace existing files on extraction instead of
 writing into them

---
 crates/nassun/src/tarball.rs | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/crates/nassun/src/tarball.rs b/crates/nassun/src/tarball.rs
index 58a4a76..98aaf53 100644
--- a/crates/nassun/src/tarball.rs
+++ b/crates/nassun/src/tarball.rs
@@ -302,7 +302,6 @@ impl TempTarball {
                                 extract_mode = ExtractMode::Auto;
                                 for (entry, (sri, mode)) in &tarball_index.files {
                                     let path = dir.join(entry);
-                                    std::fs::remove_file(&path).io_context(|| format!("Failed to remove target file while extracting a new version, at {}.", path.display()))?;
                                     let sri = sri.parse()?;
                                     extract_from_cache(cache, &sri, &path, extract_mode, *mode)?;
                                 }
@@ -314,6 +313,9 @@ impl TempTarball {
                         .files
                         .insert(entry_subpath, (sri.to_string(), mode));
                 } else {
+                    // Tarballs can have multiple entries for the same path.
+                    remove_existing(&path)?;
+
                     let mut open_opts = std::fs::OpenOptions::new();
                     open_opts.write(true).create_new(true);
 
@@ -459,6 +461,9 @@ pub(crate) fn extract_from_cache(
     extract_mode: ExtractMode,
     #[allow(unused_variables)] mode: u32,
 ) -> Result<()> {
+    // There may be something there already, such as an earlier entry for the
+    // same path. Writing into it could end up in the cache's own copy.
+    remove_existing(to)?;
     match extract_mode {
         ExtractMode::Auto | ExtractMode::Reflink => {
             // TODO: Remove the copy_from_cache fallback when we support bundleDeps
@@ -501,6 +506,18 @@ pub(crate) fn extract_from_cache(
     Ok(())
 }
 
+#[cfg(not(target_arch = "wasm32"))]
+fn remove_existing(path: &Path) -> Result<()> {
+    match std::fs::remove_file(path) {
+        Err(e) if e.kind() != std::io::ErrorKind::NotFound => Err(NassunError::ExtractIoError(
+            e,
+            Some(path.to_path_buf()),
+            "removing existing file.".into(),
+        )),
+        _ => Ok(()),
+    }
+}
+
 #[cfg(unix)]
 pub(crate) fn set_bin_mode(path: &Path) -> Result<()> {
     use std::os::unix::fs::PermissionsExt;
@@ -552,13 +569,15 @@ pub(crate) fn mkdirp(path: &Path, cache: &dashmap::DashSet<PathBuf>) -> Result<(
             true
         };
         if grandpa_present {
-            std::fs::create_dir(path).map_err(|e| {
-                NassunError::ExtractIoError(
-                    e,
-                    Some(path.parent().unwrap().into()),
-                    "creating parent directory for entry.".into(),
-                )
-            })?;
+            std::fs::create_dir(path)
+                .or_else(|e| if path.is_dir() { Ok(()) } else { Err(e) })
+                .map_err(|e| {
+                    NassunError::ExtractIoError(
+                        e,
+                        Some(path.parent().unwrap().into()),
+                        "creating parent directory for entry.".into(),
+                    )
+                })?;
             cache.insert(path.to_path_buf());
         } else {
             std::fs::create_dir_all(path).map_err(|e| {
-- 
2.43.0


From 320957baee3bbf16a827d1edf559876c4992787f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:25 +0000
Subject: [PATCH 29/79] fix: don't share file modes through the cache

---
 crates/nassun/src/tarball.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/crates/nassun/src/tarball.rs b/crates/nassun/src/tarball.rs
index 98aaf53..8c435c3 100644
--- a/crates/nassun/src/tarball.rs
+++ b/crates/nassun/src/tarball.rs
@@ -464,6 +464,14 @@ pub(crate) fn extract_from_cache(
     // There may be something there already, such as an earlier entry for the
     // same path. Writing into it could end up in the cache's own copy.
     remove_existing(to)?;
+    // Permissions are shared between hard links, so only files with the
+    // default ones can share them with the cache.
+    #[cfg(unix)]
+    let extract_mode = if mode != 0o644 && !extract_mode.is_copy() {
+        ExtractMode::Auto
+    } else {
+        extract_mode
+    };
     match extract_mode {
         ExtractMode::Auto | ExtractMode::Reflink => {
             // TODO: Remove the copy_from_cache fallback when we support bundleDeps
@@ -492,16 +500,14 @@ pub(crate) fn extract_from_cache(
     }
     #[cfg(unix)]
     {
-        if mode != 0o644 {
-            use std::os::unix::fs::PermissionsExt;
-            std::fs::set_permissions(to, std::fs::Permissions::from_mode(mode)).map_err(|e| {
-                NassunError::ExtractIoError(
-                    e,
-                    Some(to.to_path_buf()),
-                    "setting permissions on extracted file.".into(),
-                )
-            })?;
-        }
+        use std::os::unix::fs::PermissionsExt;
+        std::fs::set_permissions(to, std::fs::Permissions::from_mode(mode)).map_err(|e| {
+            NassunError::ExtractIoError(
+                e,
+                Some(to.to_path_buf()),
+                "setting permissions on extracted file.".into(),
+            )
+        })?;
     }
     Ok(())
 }
-- 
2.43.0


From 35c90bc1cce10fb0f4fe85fbfb7a1504dac1f012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:25 +0000
Subject: [PATCH 30/79] fix: look at the extracted manifest for scripts and
 bins, cached or not

---
 crates/nassun/src/tarball.rs | 86 ++++++++++++++++++++----------------
 1 file changed, 48 insertions(+), 38 deletions(-)

diff --git a/crates/nassun/src/tarball.rs b/crates/nassun/src/tarball.rs
index 8c435c3..018db1c 100644
--- a/crates/nassun/src/tarball.rs
+++ b/crates/nassun/src/tarball.rs
@@ -210,7 +210,7 @@ impl TempTarball {
         cache: Option<&Path>,
         mut extract_mode: ExtractMode,
     ) -> Result<Integrity> {
-        let mut build_mani: Option<BuildManifest> = None;
+        let mut has_manifest = false;
         let mut tarball_index = TarballIndex::default();
         let mut drain_buf = [0u8; 1024 * 8];
         let created = dashmap::DashSet::new();
@@ -281,37 +281,10 @@ impl TempTarball {
 
                     extract_from_cache(cache, &sri, &path, extract_mode, mode)?;
 
-                    let entry_subpath = entry_subpath.to_string_lossy().to_string();
-
-                    // We check whether the package has any install scripts.
-                    // If so, we need to re-extract all previous files as full
-                    // copies and mark the package as having scripts in it.
-                    if entry_subpath == "package.json" {
-                        let manifest = BuildManifest::from_path(&path).io_context(|| {
-                            format!(
-                                "Failed to read BuildManifest from path at {}.",
-                                path.display()
-                            )
-                        })?;
-                        if ["preinstall", "install", "postinstall"]
-                            .iter()
-                            .any(|s| manifest.scripts.contains_key(*s))
-                        {
-                            tarball_index.should_copy = true;
-                            if !extract_mode.is_copy() {
-                                extract_mode = ExtractMode::Auto;
-                                for (entry, (sri, mode)) in &tarball_index.files {
-                                    let path = dir.join(entry);
-                                    let sri = sri.parse()?;
-                                    extract_from_cache(cache, &sri, &path, extract_mode, *mode)?;
-                                }
-                            }
-                        }
-                        build_mani = Some(manifest);
-                    }
-                    tarball_index
-                        .files
-                        .insert(entry_subpath, (sri.to_string(), mode));
+                    tarball_index.files.insert(
+                        entry_subpath.to_string_lossy().to_string(),
+                        (sri.to_string(), mode),
+                    );
                 } else {
                     // Tarballs can have multiple entries for the same path.
                     remove_existing(&path)?;
@@ -343,6 +316,7 @@ impl TempTarball {
                         )
                     })?;
                 }
+                has_manifest |= entry_subpath == Path::new("package.json");
             } else {
                 loop {
                     let n = file.read(&mut drain_buf).map_err(|e| {
@@ -355,13 +329,49 @@ impl TempTarball {
             }
         }
 
-        if let Some(BuildManifest { bin, .. }) = &build_mani {
+        if has_manifest {
+            let path = dir.join("package.json");
+            let BuildManifest { bin, scripts } =
+                BuildManifest::from_path(&path).io_context(|| {
+                    format!(
+                        "Failed to read BuildManifest from path at {}.",
+                        path.display()
+                    )
+                })?;
+
+            // We check whether the package has any install scripts. If so, we
+            // need to re-extract all files as full copies and mark the
+            // package as having scripts in it.
+            if ["preinstall", "install", "postinstall"]
+                .iter()
+                .any(|s| scripts.contains_key(*s))
+            {
+                tarball_index.should_copy = true;
+                if let (Some(cache), false) = (cache, extract_mode.is_copy()) {
+                    extract_mode = ExtractMode::Auto;
+                    for (entry, (sri, mode)) in &tarball_index.files {
+                        extract_from_cache(
+                            cache,
+                            &sri.parse()?,
+                            &dir.join(entry),
+                            extract_mode,
+                            *mode,
+                        )?;
+                    }
+                }
+            }
+
             for binpath in bin.values() {
-                tarball_index
-                    .bin_paths
-                    .push(binpath.to_string_lossy().to_string());
-                #[cfg(unix)]
-                set_bin_mode(&dir.join(binpath))?;
+                let path = dir.join(binpath);
+                let binpath = binpath.to_string_lossy().to_string();
+                if let (Some(cache), Some((sri, mode))) = (cache, tarball_index.files.get(&binpath))
+                {
+                    extract_from_cache(cache, &sri.parse()?, &path, extract_mode, *mode | 0o111)?;
+                } else if path.is_file() {
+                    #[cfg(unix)]
+                    set_bin_mode(&path)?;
+                }
+                tarball_index.bin_paths.push(binpath);
             }
         }
 
-- 
2.43.0


From c879e0028331bd6d0eab36a5ff18c60e63b3945b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:16 +0000
Subject: [PATCH 31/79] fix: don't leave unverified contents behind when
 extracting from the cache

---
 crates/nassun/src/tarball.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/nassun/src/tarball.rs b/crates/nassun/src/tarball.rs
index 018db1c..df5f058 100644
--- a/crates/nassun/src/tarball.rs
+++ b/crates/nassun/src/tarball.rs
@@ -482,10 +482,10 @@ pub(crate) fn extract_from_cache(
     } else {
         extract_mode
     };
-    match extract_mode {
+    let extracted = match extract_mode {
         ExtractMode::Auto | ExtractMode::Reflink => {
             // TODO: Remove the copy_from_cache fallback when we support bundleDeps
-            reflink_from_cache(cache, sri, to).or_else(|_| copy_from_cache(cache, sri, to))?;
+            reflink_from_cache(cache, sri, to).or_else(|_| copy_from_cache(cache, sri, to))
         }
         ExtractMode::AutoHardlink | ExtractMode::Hardlink => {
             // HACK: This is horrible, but on wsl2 (at least), this
@@ -504,10 +504,15 @@ pub(crate) fn extract_from_cache(
                 .call()
                 // NOTE: we still want the operation to complete if hard linking fails.
                 .or_else(|_| reflink_from_cache(cache, sri, to))
-                .or_else(|_| copy_from_cache(cache, sri, to))?;
+                .or_else(|_| copy_from_cache(cache, sri, to))
         }
-        ExtractMode::Copy => copy_from_cache(cache, sri, to)?,
+        ExtractMode::Copy => copy_from_cache(cache, sri, to),
+    };
+    if extracted.is_err() {
+        // Contents are only verified once they're in place.
+        remove_existing(to)?;
     }
+    extracted?;
     #[cfg(unix)]
     {
         use std::os::unix::fs::PermissionsExt;
-- 
2.43.0


From 710b2863995b9be7aa5378cf81a637e32264f0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:43 +0000
Subject: [PATCH 32/79] fix: only send credentials to the host, port and path
 they're for

Credentials were looked up by host and path only, so two registries on
different ports of one host shared them, and a path that merely starts like
the registry's path was considered part of it. The header that says which
registry a request is for was also sent to every host.
---
 crates/oro-client/src/auth_middleware.rs | 26 +++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/crates/oro-client/src/auth_middleware.rs b/crates/oro-client/src/auth_middleware.rs
index ea45336..f313dff 100644
--- a/crates/oro-client/src/auth_middleware.rs
+++ b/crates/oro-client/src/auth_middleware.rs
@@ -29,11 +29,12 @@ impl Middleware for AuthMiddleware {
                 .expect("This should stringify just fine."),
         )
         .expect("This should have already been parsed and serialized previously.");
+        // This is only meant for us, not for whoever gets the request.
+        req.headers_mut().remove("X-Oro-Registry");
 
         // Don't add auth headers to requests to URLs outside the given
         // registry.
-        let req_url = req.url().clone();
-        if reg.host_str() != req_url.host_str() || !req_url.path().starts_with(reg.path()) {
+        if !is_within(req.url(), &reg) {
             return next.run(req, extensions).await;
         }
 
@@ -86,6 +87,25 @@ where
     header
 }
 
+/// Whether `url` is located in the given registry.
+fn is_within(url: &Url, registry: &Url) -> bool {
+    url.host_str() == registry.host_str()
+        && url.port_or_known_default() == registry.port_or_known_default()
+        && (url.path() == registry.path() || url.path().starts_with(&dir_path(registry)))
+}
+
+/// The path of a URL, as a directory.
+fn dir_path(url: &Url) -> String {
+    let path = url.path();
+    if path.ends_with('/') {
+        path.to_string()
+    } else {
+        format!("{path}/")
+    }
+}
+
 pub fn nerf_dart(url: &Url) -> String {
-    format!("//{}{}", url.host_str().unwrap_or(""), url.path())
+    let host = url.host_str().unwrap_or("");
+    let port = url.port().map(|p| format!(":{p}")).unwrap_or_default();
+    format!("//{host}{port}{}", dir_path(url))
 }
-- 
2.43.0


From 069069a046b4b6658d9814d214a91420f02ea6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:43 +0000
Subject: [PATCH 33/79] fix: fetch tarballs with the credentials of their
 package's registry

Tarball requests were always made in the name of the default client's
registry, so credentials were never sent with them.
---
 crates/nassun/src/fetch/npm.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/nassun/src/fetch/npm.rs b/crates/nassun/src/fetch/npm.rs
index f51c7d3..f61ac1c 100644
--- a/crates/nassun/src/fetch/npm.rs
+++ b/crates/nassun/src/fetch/npm.rs
@@ -156,7 +156,14 @@ impl PackageFetcher for NpmFetcher {
             PackageResolution::Npm { ref tarball, .. } => tarball,
             _ => panic!("How did a non-Npm resolution get here?"),
         };
-        Ok(self.client.stream_external(url).await?)
+        // The tarball might be hosted somewhere else entirely, so we have to
+        // let the client know which registry this package belongs to.
+        let registry = match pkg.from().target() {
+            PackageSpec::Npm { ref scope, .. } => self.pick_registry(scope),
+            _ => self.pick_registry(&None),
+        };
+        let client = self.client.with_registry(registry);
+        Ok(client.stream_external(url).await?)
     }
 }
 
-- 
2.43.0


From 2a5ac9e761ff17f19945873a21f85538ab6662f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:02 +0000
Subject: [PATCH 34/79] fix: keep the whole path of registries given without a
 trailing slash

`https://host/npm` is a documented way to write a registry, but requests were
made to `https://host/`, without the credentials for the registry.
---
 crates/oro-client/src/client.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/oro-client/src/client.rs b/crates/oro-client/src/client.rs
index 1b721f9..008b918 100644
--- a/crates/oro-client/src/client.rs
+++ b/crates/oro-client/src/client.rs
@@ -63,7 +63,7 @@ impl OroClientBuilder {
     }
 
     pub fn registry(mut self, registry: Url) -> Self {
-        self.registry = registry;
+        self.registry = as_base(registry);
         self
     }
 
@@ -203,6 +203,15 @@ impl OroClientBuilder {
     }
 }
 
+/// Makes sure the last part of a registry's path is kept when joining other
+/// paths to it.
+fn as_base(mut registry: Url) -> Url {
+    if !registry.path().ends_with('/') {
+        registry.set_path(&format!("{}/", registry.path()));
+    }
+    registry
+}
+
 #[derive(Clone, Debug)]
 pub struct OroClient {
     pub(crate) registry: Arc<Url>,
@@ -221,7 +230,7 @@ impl OroClient {
 
     pub fn with_registry(&self, registry: Url) -> Self {
         Self {
-            registry: Arc::new(registry),
+            registry: Arc::new(as_base(registry)),
             client: self.client.clone(),
             client_uncached: self.client_uncached.clone(),
         }
-- 
2.43.0


From b58bfaf022b8e3889a03722a320066470e07780e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:21 +0000
Subject: [PATCH 35/79] fix: options on the command line win over configured
 ones

What was given on the command line was found out by parsing a subcommand's
arguments with its name still among them, so options of subcommands were
usually taken for missing: configured flags overrode them, and configured
values made them an error. Negations of options that are on by default weren't
looked for at all.

Configured values are also only taken for booleans where the option is a flag:
`retries 3` and `loglevel "off"` were turned into `--retries` and
`--no-loglevel`. And they're no longer added after a `--`.
---
 crates/oro-config/src/lib.rs | 110 +++++++++++++++++++++--------------
 src/lib.rs                   |  18 ++----
 2 files changed, 71 insertions(+), 57 deletions(-)

diff --git a/crates/oro-config/src/lib.rs b/crates/oro-config/src/lib.rs
index a23439c..d22ab9f 100644
--- a/crates/oro-config/src/lib.rs
+++ b/crates/oro-config/src/lib.rs
@@ -1,10 +1,11 @@
 //! Configuration loader for Orogene config files.
 
-use std::{collections::HashSet, ffi::OsString, path::PathBuf};
+use std::{ffi::OsString, path::PathBuf};
 
+use clap::parser::ValueSource;
 pub use clap::{ArgMatches, Command};
 pub use config::Config as OroConfig;
-use config::{builder::DefaultState, ConfigBuilder, Environment, File, ValueKind};
+use config::{builder::DefaultState, ConfigBuilder, Environment, File, Value, ValueKind};
 use kdl_source::KdlFormat;
 use miette::Result;
 
@@ -15,7 +16,16 @@ mod kdl_source;
 
 pub trait OroConfigLayerExt {
     fn with_negations(self) -> Self;
-    fn layered_args(&self, args: &mut Vec<OsString>, config: &OroConfig) -> Result<()>;
+
+    /// Adds options that are in `config`, and that weren't given on the
+    /// command line, to `args`. `matches` is what this command matched from
+    /// `args`.
+    fn layered_args(
+        &self,
+        args: &mut Vec<OsString>,
+        matches: &ArgMatches,
+        config: &OroConfig,
+    ) -> Result<()>;
 }
 
 impl OroConfigLayerExt for Command {
@@ -51,61 +61,71 @@ impl OroConfigLayerExt for Command {
         self.args(negations)
     }
 
-    fn layered_args(&self, args: &mut Vec<OsString>, config: &OroConfig) -> Result<()> {
-        let mut long_opts = HashSet::new();
+    fn layered_args(
+        &self,
+        args: &mut Vec<OsString>,
+        matches: &ArgMatches,
+        config: &OroConfig,
+    ) -> Result<()> {
+        let is_given = |id: &str| {
+            self.get_arguments().any(|opt| opt.get_id() == id)
+                && matches.value_source(id) == Some(ValueSource::CommandLine)
+        };
+        let mut layered = Vec::new();
         for opt in self.get_arguments() {
-            if opt.get_long().is_some() {
-                long_opts.insert(opt.get_id().to_string());
-            }
-        }
-        let matches = self
-            .clone()
-            .ignore_errors(true)
-            .get_matches_from(&args.clone());
-        for opt in long_opts {
+            let Some(long) = opt.get_long() else {
+                continue;
+            };
             // TODO: _prepend_ args unconditionally if they're coming from
             // config, so multi-args get parsed right. Right now, if you have
             // something in your config, it'll get completely overridden by
             // the command line.
-            if matches.value_source(&opt) != Some(clap::parser::ValueSource::CommandLine) {
-                let opt = opt.replace('_', "-");
-                if !args.contains(&OsString::from(format!("--no-{opt}"))) {
-                    if let Ok(bool) = config.get_bool(&opt) {
-                        if bool {
-                            args.push(OsString::from(format!("--{}", opt)));
-                        } else {
-                            args.push(OsString::from(format!("--no-{}", opt)));
-                        }
-                    } else if let Ok(value) = config.get_string(&opt) {
-                        args.push(OsString::from(format!("--{}", opt)));
-                        args.push(OsString::from(value));
-                    } else if let Ok(value) = config.get_table(&opt) {
-                        for (key, val) in value {
-                            match &val.kind {
-                                ValueKind::Table(map) => {
-                                    for (k, v) in map {
-                                        args.push(OsString::from(format!("--{}", opt)));
-                                        args.push(OsString::from(format!("{{{key}}}{k}={v}")));
-                                    }
-                                }
-                                // TODO: error if val.kind is an Array
-                                _ => {
-                                    args.push(OsString::from(format!("--{}", opt)));
-                                    args.push(OsString::from(format!("{key}={val}")));
+            if is_given(opt.get_id().as_str()) || is_given(&format!("no-{long}")) {
+                continue;
+            }
+            let takes_value = opt.get_action().takes_values();
+            let opt = opt.get_id().as_str().replace('_', "-");
+            let Ok(value) = config.get::<Value>(&opt) else {
+                continue;
+            };
+            match &value.kind {
+                ValueKind::Table(table) => {
+                    for (key, val) in table {
+                        match &val.kind {
+                            ValueKind::Table(map) => {
+                                for (k, v) in map {
+                                    layered.push(format!("--{opt}={{{key}}}{k}={v}"));
                                 }
                             }
+                            // TODO: error if val.kind is an Array
+                            _ => layered.push(format!("--{opt}={key}={val}")),
                         }
-                    } else if let Ok(value) = config.get_array(&opt) {
-                        for val in value {
-                            if let Ok(val) = val.into_string() {
-                                args.push(OsString::from(format!("--{}", opt)));
-                                args.push(OsString::from(val));
-                            }
+                    }
+                }
+                ValueKind::Array(array) => {
+                    for val in array {
+                        if let Ok(val) = val.clone().into_string() {
+                            layered.push(format!("--{opt}={val}"));
                         }
                     }
                 }
+                ValueKind::Nil => {}
+                ValueKind::Boolean(false) => layered.push(format!("--no-{opt}")),
+                ValueKind::Boolean(true) => layered.push(format!("--{opt}")),
+                // Only flags can be spelled in all the ways we know to spell
+                // booleans. For anything else, these are regular values.
+                _ if !takes_value => match value.clone().into_bool() {
+                    Ok(true) => layered.push(format!("--{opt}")),
+                    Ok(false) => layered.push(format!("--no-{opt}")),
+                    Err(_) => layered.push(format!("--{opt}={value}")),
+                },
+                _ => layered.push(format!("--{opt}={value}")),
             }
         }
+        // Everything after a `--` is a positional argument.
+        let end = args.iter().position(|arg| arg == "--");
+        let end = end.unwrap_or(args.len());
+        args.splice(end..end, layered.into_iter().map(OsString::from));
         Ok(())
     }
 }
diff --git a/src/lib.rs b/src/lib.rs
index 2344076..a32fa38 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -488,23 +488,17 @@ impl Orogene {
         let matches = command.clone().ignore_errors(true).get_matches();
         let mut matches_ref = &matches;
 
-        // Next, we "recursively" follow the subcommand chain until we bottom
-        // out, then keep that path.
-        let mut subcmd_path = VecDeque::new();
-        while let Some((sub_cmd, new_m)) = matches_ref.subcommand() {
-            subcmd_path.push_back(sub_cmd);
-            matches_ref = new_m;
-        }
-
-        // Then, we find the subcommand starting from our toplevel Command.
+        // Then, we "recursively" follow the subcommand chain until we bottom
+        // out, layering each command's own options with what it matched.
         let mut command = command.clone();
         let mut subcmd = &mut command;
-        subcmd.layered_args(args, config)?;
-        while let Some(name) = subcmd_path.pop_front() {
+        subcmd.layered_args(args, matches_ref, config)?;
+        while let Some((name, sub_matches)) = matches_ref.subcommand() {
             subcmd = subcmd
                 .find_subcommand_mut(name)
                 .expect("This should definitely exist?");
-            subcmd.layered_args(args, config)?;
+            matches_ref = sub_matches;
+            subcmd.layered_args(args, matches_ref, config)?;
         }
         Ok(())
     }
-- 
2.43.0


From 7cf1f930f6392d55fd88cc9db6431f21f372aa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:45 +0000
Subject: [PATCH 36/79] fix: config files override environment variables

The documented order of precedence has the environment last, but it overrode
the global config file. Options with more than one word in their names could
not be configured from the environment at all.
---
 crates/oro-config/src/lib.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/crates/oro-config/src/lib.rs b/crates/oro-config/src/lib.rs
index d22ab9f..0ca6036 100644
--- a/crates/oro-config/src/lib.rs
+++ b/crates/oro-config/src/lib.rs
@@ -5,7 +5,7 @@ use std::{ffi::OsString, path::PathBuf};
 use clap::parser::ValueSource;
 pub use clap::{ArgMatches, Command};
 pub use config::Config as OroConfig;
-use config::{builder::DefaultState, ConfigBuilder, Environment, File, Value, ValueKind};
+use config::{builder::DefaultState, ConfigBuilder, Environment, File, Map, Value, ValueKind};
 use kdl_source::KdlFormat;
 use miette::Result;
 
@@ -130,6 +130,21 @@ impl OroConfigLayerExt for Command {
     }
 }
 
+const ENV_PREFIX: &str = "oro_config";
+
+/// Our environment variables, with `-` instead of `_` in option names, the
+/// way options are spelled everywhere else.
+fn env() -> Map<String, String> {
+    std::env::vars_os()
+        .filter_map(|(key, val)| {
+            let (key, val) = (key.into_string().ok()?, val.into_string().ok()?);
+            let option = key.to_lowercase();
+            let option = option.strip_prefix(ENV_PREFIX)?.strip_prefix('_')?;
+            Some((format!("{ENV_PREFIX}_{}", option.replace('_', "-")), val))
+        })
+        .collect()
+}
+
 #[derive(Debug, Clone)]
 pub struct OroConfigOptions {
     builder: ConfigBuilder<DefaultState>,
@@ -183,15 +198,16 @@ impl OroConfigOptions {
 
     pub fn load(self) -> Result<OroConfig> {
         let mut builder = self.builder;
+        // Later sources override earlier ones.
+        if self.env {
+            builder = builder.add_source(Environment::with_prefix(ENV_PREFIX).source(Some(env())));
+        }
         if self.global {
             if let Some(config_file) = self.global_config_file {
                 let path = config_file.display().to_string();
                 builder = builder.add_source(File::new(&path, KdlFormat).required(false));
             }
         }
-        if self.env {
-            builder = builder.add_source(Environment::with_prefix("oro_config"));
-        }
         if let Some(root) = self.pkg_root {
             builder = builder.add_source(
                 File::new(&root.join("oro.kdl").display().to_string(), KdlFormat).required(false),
-- 
2.43.0


From 1152fa182de9646358e3e16c46c78280eff642a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:10 +0000
Subject: [PATCH 37/79] fix: read the project's config file from the project's
 root

It was only looked for in the current directory, even when that's a
subdirectory of the project.
---
 src/lib.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a32fa38..84cb3f3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -96,7 +96,10 @@ use std::{
 };
 
 use async_trait::async_trait;
-use clap::{Args, Command, CommandFactory, FromArgMatches as _, Parser, Subcommand};
+use clap::{
+    parser::ValueSource, ArgMatches, Args, Command, CommandFactory, FromArgMatches as _, Parser,
+    Subcommand,
+};
 use dialoguer::{theme::ColorfulTheme, Confirm};
 use directories::ProjectDirs;
 use is_terminal::IsTerminal;
@@ -425,7 +428,7 @@ impl Orogene {
         }
     }
 
-    fn build_config(&self) -> Result<OroConfig> {
+    fn build_config(&self, matches: &ArgMatches) -> Result<OroConfig> {
         let dirs = ProjectDirs::from("", "", "orogene");
         let cwd = std::env::current_dir().into_diagnostic()?;
         let root = if let Some(root) = pkg_root(&cwd) {
@@ -444,10 +447,17 @@ impl Orogene {
         let cfg = if let Some(file) = &self.config {
             cfg_builder.global_config_file(Some(file.clone())).load()?
         } else {
-            cfg_builder
-                .global_config_file(dirs.map(|d| d.config_dir().to_owned().join("oro.kdl")))
-                .pkg_root(Some(self.root.clone()))
-                .load()?
+            let cfg_builder = cfg_builder
+                .global_config_file(dirs.map(|d| d.config_dir().to_owned().join("oro.kdl")));
+            // The root we have at this point is a dummy value, unless it was
+            // specified on the command line.
+            let root = if matches.value_source("root") == Some(ValueSource::CommandLine) {
+                self.root.clone()
+            } else {
+                let cfg = cfg_builder.clone().load()?;
+                cfg.get_string("root").into_diagnostic()?.into()
+            };
+            cfg_builder.pkg_root(Some(root)).load()?
         };
 
         Ok(cfg)
@@ -682,7 +692,7 @@ impl Orogene {
         let command = Self::current_command();
         let matches = command.clone().get_matches();
         let oro = Orogene::from_arg_matches(&matches).into_diagnostic()?;
-        let config = oro.build_config()?;
+        let config = oro.build_config(&matches)?;
         let mut args = std::env::args_os().collect::<Vec<_>>();
         Self::layer_command_args(&command, &mut args, &config)?;
         let mut oro =
-- 
2.43.0


From 1de5a102e4011624bcf1a4d617c3db57a5559980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:12 +0000
Subject: [PATCH 38/79] fix: don't crash on --auth values with their parts out
 of order

---
 src/lib.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 84cb3f3..4279d63 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -829,12 +829,18 @@ where
     let open_pos = s.find('{').ok_or_else(|| {
         format!("invalid {{TOP_KEY}}NESTED_KEY=VALUE entry: no `{{` found in `{s}`",)
     })?;
-    let close_pos = s.find('}').ok_or_else(|| {
-        format!("invalid {{TOP_KEY}}NESTED_KEY=VALUE entry: no `}}` found in `{s}`",)
-    })?;
-    let eq_pos = s.find('=').ok_or_else(|| {
-        format!("invalid {{TOP_KEY}}NESTED_KEY=VALUE entry: no `=` found in `{s}`")
-    })?;
+    let close_pos = s[open_pos..]
+        .find('}')
+        .map(|pos| pos + open_pos)
+        .ok_or_else(|| {
+            format!("invalid {{TOP_KEY}}NESTED_KEY=VALUE entry: no `}}` found in `{s}`",)
+        })?;
+    let eq_pos = s[close_pos..]
+        .find('=')
+        .map(|pos| pos + close_pos)
+        .ok_or_else(|| {
+            format!("invalid {{TOP_KEY}}NESTED_KEY=VALUE entry: no `=` found in `{s}`")
+        })?;
 
     Ok((
         s[open_pos + 1..close_pos].parse()?,
-- 
2.43.0


From bddb9b7a4365152321a32f24b7dc773fe8f5abc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:47 +0000
Subject: [PATCH 39/79] fix: read stored credentials back as they were stored

Tokens were taken for legacy auth and the other way around, so logging out
never revoked the token and sent legacy auth as one instead. Basic auth was
read as if its password were encoded. Storing or clearing credentials also
deleted any entry that isn't a URL, did nothing when there was an empty `auth`
or `scoped-registries` node, and scopes with and without `@` were kept as two
different mappings of one scope.
---
 crates/oro-npm-account/src/config.rs | 49 ++++++++++++++--------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/crates/oro-npm-account/src/config.rs b/crates/oro-npm-account/src/config.rs
index 82b6753..ec50c41 100644
--- a/crates/oro-npm-account/src/config.rs
+++ b/crates/oro-npm-account/src/config.rs
@@ -1,4 +1,3 @@
-use base64::{engine::general_purpose, Engine as _};
 use kdl::{KdlDocument, KdlEntry, KdlNode, KdlValue};
 use reqwest::header::HeaderValue;
 use url::Url;
@@ -22,8 +21,8 @@ pub fn set_credentials_by_uri(uri: &Url, credentials: &Credentials, config: &mut
         if let Some(children) = opts.children_mut().as_mut() {
             if children.get_mut("auth").is_none() {
                 children.nodes_mut().push(KdlNode::new("auth"));
-                children.get_mut("auth").unwrap().ensure_children();
             }
+            children.get_mut("auth").unwrap().ensure_children();
         }
     }
 
@@ -71,11 +70,11 @@ pub fn set_scoped_registry(scope: &str, registry: &Url, config: &mut KdlDocument
         if let Some(children) = opts.children_mut().as_mut() {
             if children.get_mut("scoped-registries").is_none() {
                 children.nodes_mut().push(KdlNode::new("scoped-registries"));
-                children
-                    .get_mut("scoped-registries")
-                    .unwrap()
-                    .ensure_children();
             }
+            children
+                .get_mut("scoped-registries")
+                .unwrap()
+                .ensure_children();
         }
     }
 
@@ -113,22 +112,19 @@ pub fn get_credentials_by_uri(uri: &Url, config: &KdlDocument) -> Option<Credent
             let username = credentials.get("username");
             let password = credentials.get("password");
 
-            match (token, legacy_auth, username, password) {
-                (_, Some(token), ..) => Some(Credentials::Token(token.as_string()?.into())),
-                (.., Some(username), Some(password)) => {
-                    let username = username.as_string()?;
-                    let password = password.as_string()?;
-                    let password = general_purpose::STANDARD.decode(password).ok()?;
-                    let password = String::from_utf8_lossy(&password).to_string();
-
-                    Some(Credentials::LegacyAuth(
-                        general_purpose::STANDARD.encode(format!("{username}:{password}")),
-                    ))
-                }
-                (Some(legacy_auth), ..) => {
-                    Some(Credentials::LegacyAuth(legacy_auth.as_string()?.into()))
-                }
-                _ => None,
+            if let Some(token) = token {
+                Some(Credentials::Token(token.as_string()?.into()))
+            } else if let Some(username) = username {
+                Some(Credentials::BasicAuth {
+                    username: username.as_string()?.into(),
+                    password: password
+                        .and_then(|password| password.as_string())
+                        .map(String::from),
+                })
+            } else if let Some(legacy_auth) = legacy_auth {
+                Some(Credentials::LegacyAuth(legacy_auth.as_string()?.into()))
+            } else {
+                None
             }
         })
 }
@@ -157,14 +153,19 @@ pub fn clear_crendentials_by_uri(uri: &Url, config: &mut KdlDocument) {
 fn clean_auth_nodes(uri: &Url, nodes: &mut Vec<KdlNode>) {
     nodes.retain_mut(|node| {
         let Ok(node_url) = Url::parse(node.name().value()) else {
-            return false;
+            return true;
         };
         oro_client::nerf_dart(&node_url) != oro_client::nerf_dart(uri)
     });
 }
 
 fn clean_scoped_registry_nodes(scope: &str, nodes: &mut Vec<KdlNode>) {
-    nodes.retain_mut(|node| node.name().value() != scope);
+    // The `@` is optional in scopes.
+    let scope = scope.strip_prefix('@').unwrap_or(scope);
+    nodes.retain_mut(|node| {
+        let name = node.name().value();
+        name.strip_prefix('@').unwrap_or(name) != scope
+    });
 }
 
 impl TryFrom<Credentials> for HeaderValue {
-- 
2.43.0


From 6438c43df2bfc150aca3d3a7b08358a6d2216a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:12 +0000
Subject: [PATCH 40/79] fix: let users log in before there's a config file

Outside of first-time setup (in CI, for example) nothing ever creates it.
---
 src/commands/login.rs  | 8 +++++---
 src/commands/logout.rs | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/commands/login.rs b/src/commands/login.rs
index 8246e29..c0b5feb 100644
--- a/src/commands/login.rs
+++ b/src/commands/login.rs
@@ -73,9 +73,11 @@ impl OroCommand for LoginCmd {
                 .map(|config| config.config_dir().to_path_buf().join("oro.kdl"))
         }) {
             std::fs::create_dir_all(config_path.parent().expect("must have parent")).unwrap();
-            let mut config: KdlDocument = std::fs::read_to_string(config_path)
-                .into_diagnostic()?
-                .parse()?;
+            let mut config: KdlDocument = match std::fs::read_to_string(config_path) {
+                Ok(config) => config.parse()?,
+                Err(e) if e.kind() == std::io::ErrorKind::NotFound => KdlDocument::new(),
+                Err(e) => return Err(e).into_diagnostic(),
+            };
 
             tracing::info!("Logging in to {}", self.registry);
 
diff --git a/src/commands/logout.rs b/src/commands/logout.rs
index dfd63a3..a9a983a 100644
--- a/src/commands/logout.rs
+++ b/src/commands/logout.rs
@@ -33,9 +33,11 @@ impl OroCommand for LogoutCmd {
             let client = builder.registry(self.registry.clone()).build();
             std::fs::create_dir_all(config_path.parent().expect("must have parent"))
                 .into_diagnostic()?;
-            let mut config: KdlDocument = std::fs::read_to_string(config_path)
-                .into_diagnostic()?
-                .parse()?;
+            let mut config: KdlDocument = match std::fs::read_to_string(config_path) {
+                Ok(config) => config.parse()?,
+                Err(e) if e.kind() == std::io::ErrorKind::NotFound => KdlDocument::new(),
+                Err(e) => return Err(e).into_diagnostic(),
+            };
 
             if let Some(Credentials::Token(token)) =
                 config::get_credentials_by_uri(&self.registry, &config)
-- 
2.43.0


From 3a4662e17eb0c0aac89804d492511f8a1ebe56db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:12 +0000
Subject: [PATCH 41/79] fix: don't crash on unexpected answers while logging in

---
 crates/oro-client/src/api/login.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/oro-client/src/api/login.rs b/crates/oro-client/src/api/login.rs
index 3258ab8..7e306d4 100644
--- a/crates/oro-client/src/api/login.rs
+++ b/crates/oro-client/src/api/login.rs
@@ -119,7 +119,8 @@ impl OroClient {
         if let Some(otp) = otp {
             headers.insert(
                 "npm-otp",
-                otp.try_into().expect("This type conversion should work"),
+                otp.try_into()
+                    .map_err(|_| OroClientError::OTPRequiredError)?,
             );
         }
 
@@ -150,7 +151,7 @@ impl OroClient {
                     .headers()
                     .get(WWW_AUTHENTICATE)
                     .map_or(String::default(), |header| {
-                        header.to_str().unwrap().to_lowercase()
+                        String::from_utf8_lossy(header.as_bytes()).to_lowercase()
                     });
 
                 let text = response.text().await?;
@@ -218,11 +219,12 @@ impl OroClient {
                 ))
             }
             StatusCode::ACCEPTED => {
-                if let Some(retry_after) = response.headers().get("retry-after") {
-                    let retry_after = retry_after.to_str()
-                        .expect("The \"retry-after\" header that's included in the response should be string.")
-                        .parse::<u64>()
-                        .expect("The \"retry-after\" header that's included in the response should be able to parse to number.");
+                let retry_after = response
+                    .headers()
+                    .get("retry-after")
+                    .and_then(|retry_after| retry_after.to_str().ok())
+                    .and_then(|retry_after| retry_after.parse().ok());
+                if let Some(retry_after) = retry_after {
                     Ok(DoneURLResponse::Duration(Duration::from_secs(retry_after)))
                 } else {
                     Err(OroClientError::ResponseError(
-- 
2.43.0


From e8a39cfaffafab8afa2e93ccf318e487cb858e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:24 +0000
Subject: [PATCH 42/79] fix: find the subcommand behind negated global options

---
 src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4279d63..ee4ac44 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -464,8 +464,13 @@ impl Orogene {
     }
 
     fn current_command() -> Command {
-        // First, we do a fake parse. All we really want is to get the subcommand, here.
-        let matches = Orogene::command().ignore_errors(true).get_matches();
+        // First, we do a fake parse. All we really want is to get the
+        // subcommand, here. It has to know about the global options'
+        // negations, because it doesn't see beyond anything it doesn't know.
+        let matches = Orogene::command()
+            .with_negations()
+            .ignore_errors(true)
+            .get_matches();
         let mut matches_ref = &matches;
 
         // Next, we "recursively" follow the subcommand chain until we bottom
-- 
2.43.0


From 489e518e18e8c41791dec164734eed69624888b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:50 +0000
Subject: [PATCH 43/79] fix: retry dropped connections when there's a cache

---
 crates/oro-client/src/client.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/oro-client/src/client.rs b/crates/oro-client/src/client.rs
index 008b918..85609c4 100644
--- a/crates/oro-client/src/client.rs
+++ b/crates/oro-client/src/client.rs
@@ -163,7 +163,6 @@ impl OroClientBuilder {
 
         #[allow(unused_mut)]
         let mut client_builder = reqwest_middleware::ClientBuilder::new(client_raw.clone())
-            .with(retry_strategy)
             .with(AuthMiddleware(credentials.clone()));
 
         #[cfg(not(target_arch = "wasm32"))]
@@ -177,6 +176,10 @@ impl OroClientBuilder {
             }));
         }
 
+        // This has to see the actual network errors: the cache turns all
+        // errors into ones that aren't known to be transient anymore.
+        let client_builder = client_builder.with(retry_strategy);
+
         let retry_policy = ExponentialBackoff::builder().build_with_max_retries(self.retries);
         let retry_strategy = RetryTransientMiddleware::new_with_policy(retry_policy);
 
-- 
2.43.0


From 55e87da2aab8ff706f90880af65d32a2e7e671ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:18 +0000
Subject: [PATCH 44/79] fix: revoke tokens with special characters in them

---
 crates/oro-client/src/api/logout.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/oro-client/src/api/logout.rs b/crates/oro-client/src/api/logout.rs
index 39d6051..a07dbda 100644
--- a/crates/oro-client/src/api/logout.rs
+++ b/crates/oro-client/src/api/logout.rs
@@ -2,8 +2,14 @@ use crate::{OroClient, OroClientError};
 
 impl OroClient {
     pub async fn delete_token(&self, token: &String) -> Result<(), OroClientError> {
+        let mut url = self.registry.join("-/user/token/")?;
+        // Tokens can have anything in them.
+        url.path_segments_mut()
+            .map_err(|_| url::ParseError::RelativeUrlWithCannotBeABaseBase)?
+            .pop_if_empty()
+            .push(token);
         self.client
-            .delete(self.registry.join(&format!("-/user/token/{token}"))?)
+            .delete(url)
             .header("X-Oro-Registry", self.registry.to_string())
             .send()
             .await?;
-- 
2.43.0


From cb3b6a5f6ad648a3f0a4b6a64eb205dae1a92eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:19 +0000
Subject: [PATCH 45/79] fix: keep scoped registries spelled as properties when
 adding another

---
 crates/oro-npm-account/src/config.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/crates/oro-npm-account/src/config.rs b/crates/oro-npm-account/src/config.rs
index ec50c41..039f762 100644
--- a/crates/oro-npm-account/src/config.rs
+++ b/crates/oro-npm-account/src/config.rs
@@ -71,10 +71,21 @@ pub fn set_scoped_registry(scope: &str, registry: &Url, config: &mut KdlDocument
             if children.get_mut("scoped-registries").is_none() {
                 children.nodes_mut().push(KdlNode::new("scoped-registries"));
             }
-            children
-                .get_mut("scoped-registries")
-                .unwrap()
-                .ensure_children();
+            let scoped_registries = children.get_mut("scoped-registries").unwrap();
+            // Children don't count where there are properties, so those have
+            // to become children, too.
+            let props = std::mem::take(scoped_registries.entries_mut());
+            if !props.is_empty() {
+                *scoped_registries.children_mut() = None;
+            }
+            let nodes = scoped_registries.ensure_children().nodes_mut();
+            for prop in props {
+                if let Some(name) = prop.name() {
+                    let mut node = KdlNode::new(name.value());
+                    node.push(prop.value().clone());
+                    nodes.push(node);
+                }
+            }
         }
     }
 
-- 
2.43.0


From d71d6e78df45e65ee48c5b7821b943aab074ecf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:19 +0000
Subject: [PATCH 46/79] fix: revoke tokens from auth entries with children

---
 crates/oro-npm-account/src/config.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/oro-npm-account/src/config.rs b/crates/oro-npm-account/src/config.rs
index 039f762..78342dc 100644
--- a/crates/oro-npm-account/src/config.rs
+++ b/crates/oro-npm-account/src/config.rs
@@ -118,10 +118,16 @@ pub fn get_credentials_by_uri(uri: &Url, config: &KdlDocument) -> Option<Credent
             })
         })
         .and_then(|credentials| {
-            let token = credentials.get("token");
-            let legacy_auth = credentials.get("legacy-auth");
-            let username = credentials.get("username");
-            let password = credentials.get("password");
+            // Either properties or children will do.
+            let get = |name: &str| {
+                credentials
+                    .get(name)
+                    .or_else(|| credentials.children().and_then(|c| c.get_arg(name)))
+            };
+            let token = get("token");
+            let legacy_auth = get("legacy-auth");
+            let username = get("username");
+            let password = get("password");
 
             if let Some(token) = token {
                 Some(Credentials::Token(token.as_string()?.into()))
-- 
2.43.0


From 371d8807af853a2be57b1a069af78c47a5bf7e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:28 +0000
Subject: [PATCH 47/79] fix: don't prompt without a terminal

---
 crates/oro-npm-account/src/login.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/oro-npm-account/src/login.rs b/crates/oro-npm-account/src/login.rs
index abb9759..4c3dbf5 100644
--- a/crates/oro-npm-account/src/login.rs
+++ b/crates/oro-npm-account/src/login.rs
@@ -4,6 +4,7 @@ use dialoguer::{Input, Password};
 use open::that as open;
 use oro_client::login::{AuthType, DoneURLResponse, LoginCouchResponse, LoginOptions, Token};
 use oro_client::OroClient;
+use std::io;
 use url::Url;
 
 pub async fn login(
@@ -32,6 +33,13 @@ pub async fn login(
             }
         }
         AuthType::Legacy => {
+            // Without anyone to ask, prompts would go on forever.
+            if !dialoguer::console::user_attended_stderr() {
+                return Err(OroNpmAccountError::ReadUserInputError(io::Error::new(
+                    io::ErrorKind::NotConnected,
+                    "not a terminal",
+                )));
+            }
             let username: String = Input::with_theme(&ColorfulTheme::default())
                 .with_prompt("Username:")
                 .interact()
-- 
2.43.0


From 24a987f2cde230001e0167960eee804f4da9936f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:10 +0000
Subject: [PATCH 48/79] fix: detect indentation past blank lines

---
 crates/oro-pretty-json/src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/oro-pretty-json/src/lib.rs b/crates/oro-pretty-json/src/lib.rs
index 898d0e2..bc68447 100644
--- a/crates/oro-pretty-json/src/lib.rs
+++ b/crates/oro-pretty-json/src/lib.rs
@@ -52,13 +52,17 @@ pub fn to_string_pretty(formatted: &Formatted) -> Result<String, Error> {
 }
 
 fn detect_indentation(json: &str) -> Option<(char, usize)> {
-    let mut lines = json.lines();
-    lines.next()?;
-    let second_line = lines.next()?;
+    // The first line is never indented, and there's nothing to learn from
+    // blank lines.
+    let line = json
+        .lines()
+        .skip_while(|line| line.chars().all(is_json_whitespace))
+        .skip(1)
+        .find(|line| !line.chars().all(is_json_whitespace))?;
     let mut indent = 0;
     let mut character = None;
     let mut last_whitespace_char = None;
-    for c in second_line.chars() {
+    for c in line.chars() {
         if is_json_whitespace(c) {
             indent += 1;
             last_whitespace_char = Some(c);
-- 
2.43.0


From a58dc17e7f85d4bb8eb8c274845d30c7878e4ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:11 +0000
Subject: [PATCH 49/79] fix: keep the order of other dependencies on add and
 remove

---
 src/commands/add.rs    | 3 ++-
 src/commands/remove.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/commands/add.rs b/src/commands/add.rs
index 47c1030..274e15d 100644
--- a/src/commands/add.rs
+++ b/src/commands/add.rs
@@ -152,7 +152,8 @@ impl AddCmd {
                             "Removing {name}@{} from {ty}.",
                             obj[name].as_str().unwrap_or("")
                         );
-                        obj.remove(name);
+                        // NOTE: `remove` would move the last entry here.
+                        obj.retain(|key, _| key != name);
                     }
                 }
             }
diff --git a/src/commands/remove.rs b/src/commands/remove.rs
index da4ab59..2118bcf 100644
--- a/src/commands/remove.rs
+++ b/src/commands/remove.rs
@@ -93,7 +93,8 @@ impl RemoveCmd {
                             "Removing {name}@{} from {ty}.",
                             obj[name].as_str().unwrap_or("")
                         );
-                        obj.remove(name);
+                        // NOTE: `remove` would move the last entry here.
+                        obj.retain(|key, _| key != name);
                         count += 1;
                     }
                 }
-- 
2.43.0


From 17126a1254935fcc50948373af8f69fd5e0c80c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:16 +0000
Subject: [PATCH 50/79] fix: don't panic adding to dependencies that aren't an
 object

---
 src/commands/add.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/commands/add.rs b/src/commands/add.rs
index 274e15d..54fb862 100644
--- a/src/commands/add.rs
+++ b/src/commands/add.rs
@@ -5,6 +5,7 @@ use nassun::PackageResolution;
 use oro_common::CorgiManifest;
 use oro_package_spec::{PackageSpec, VersionSpec};
 use oro_pretty_json::Formatted;
+use serde_json::Value;
 
 use crate::apply_args::ApplyArgs;
 use crate::commands::OroCommand;
@@ -91,7 +92,7 @@ impl OroCommand for AddCmd {
                 if self.apply.emoji { "🔍 " } else { "" }
             );
             self.remove_from_manifest(&mut manifest, name);
-            self.add_to_manifest(&mut manifest, name, &resolved_spec);
+            self.add_to_manifest(&mut manifest, name, &resolved_spec)?;
             count += 1;
         }
 
@@ -131,11 +132,22 @@ impl OroCommand for AddCmd {
 }
 
 impl AddCmd {
-    fn add_to_manifest(&self, mani: &mut Formatted, name: &str, spec: &str) {
+    fn add_to_manifest(&self, mani: &mut Formatted, name: &str, spec: &str) -> Result<()> {
         let deps = self.dep_kind_str();
         tracing::debug!("Adding {name}@{spec} to {deps}.");
+        if !mani.value.is_object()
+            || !matches!(
+                mani.value.get(deps),
+                None | Some(Value::Null | Value::Object(_))
+            )
+        {
+            return Err(miette::miette!(
+                "Can't add {name}@{spec} because {deps} in package.json is not an object."
+            ));
+        }
         mani.value[deps][name] =
             serde_json::to_value(spec).expect("Value is always a valid string");
+        Ok(())
     }
 
     fn remove_from_manifest(&self, mani: &mut Formatted, name: &str) {
-- 
2.43.0


From bc3219dd3fea9800603cb01b1bacdba8e207e946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:06 +0000
Subject: [PATCH 51/79] fix: replace package.json atomically

---
 src/commands/add.rs    |  7 +------
 src/commands/mod.rs    | 30 +++++++++++++++++++++++++++++-
 src/commands/remove.rs |  7 +------
 3 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/src/commands/add.rs b/src/commands/add.rs
index 54fb862..8066519 100644
--- a/src/commands/add.rs
+++ b/src/commands/add.rs
@@ -110,12 +110,7 @@ impl OroCommand for AddCmd {
         // Then, we apply the change.
         self.apply.execute(corgi).await?;
 
-        async_std::fs::write(
-            self.apply.root.join("package.json"),
-            oro_pretty_json::to_string_pretty(&manifest).into_diagnostic()?,
-        )
-        .await
-        .into_diagnostic()?;
+        super::write_package_json(&self.apply.root, &manifest).await?;
 
         tracing::info!(
             "{}Updated package.json with {count} new {}.",
diff --git a/src/commands/mod.rs b/src/commands/mod.rs
index db42231..abf192d 100644
--- a/src/commands/mod.rs
+++ b/src/commands/mod.rs
@@ -1,5 +1,9 @@
+use std::path::Path;
+
+use async_std::fs;
 use async_trait::async_trait;
-use miette::Result;
+use miette::{IntoDiagnostic, Result};
+use oro_pretty_json::Formatted;
 
 pub mod add;
 pub mod apply;
@@ -14,3 +18,27 @@ pub mod view;
 pub trait OroCommand {
     async fn execute(self) -> Result<()>;
 }
+
+/// Replaces the package.json in `root`. It's written on the side first, so
+/// that there's no point at which only part of it is there.
+async fn write_package_json(root: &Path, manifest: &Formatted) -> Result<()> {
+    // (If it's a symlink, what gets replaced is what it points to.)
+    let path = fs::canonicalize(root.join("package.json"))
+        .await
+        .into_diagnostic()?;
+    let temp = path.with_extension("json.tmp");
+    fs::write(
+        &temp,
+        oro_pretty_json::to_string_pretty(manifest).into_diagnostic()?,
+    )
+    .await
+    .into_diagnostic()?;
+    fs::set_permissions(
+        &temp,
+        fs::metadata(&path).await.into_diagnostic()?.permissions(),
+    )
+    .await
+    .into_diagnostic()?;
+    fs::rename(&temp, &path).await.into_diagnostic()?;
+    Ok(())
+}
diff --git a/src/commands/remove.rs b/src/commands/remove.rs
index 2118bcf..3c4068c 100644
--- a/src/commands/remove.rs
+++ b/src/commands/remove.rs
@@ -60,12 +60,7 @@ impl OroCommand for RemoveCmd {
         // Then, we apply the change.
         self.apply.execute(corgi).await?;
 
-        async_std::fs::write(
-            self.apply.root.join("package.json"),
-            oro_pretty_json::to_string_pretty(&manifest).into_diagnostic()?,
-        )
-        .await
-        .into_diagnostic()?;
+        super::write_package_json(&self.apply.root, &manifest).await?;
 
         tracing::info!(
             "{}Removed {count} dependenc{} from package.json.",
-- 
2.43.0


From 89bd76ac1b99b6be4e4e42996075eaf6f325015e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:09 +0000
Subject: [PATCH 52/79] fix: don't panic on hosted git URLs without a path

---
 crates/oro-package-spec/src/parsers/git.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/oro-package-spec/src/parsers/git.rs b/crates/oro-package-spec/src/parsers/git.rs
index f98f659..896f93e 100644
--- a/crates/oro-package-spec/src/parsers/git.rs
+++ b/crates/oro-package-spec/src/parsers/git.rs
@@ -85,7 +85,11 @@ fn git_url(input: &str) -> IResult<&str, GitInfo, SpecParseError<&str>> {
         | Some(host @ "gitlab.com")
         | Some(host @ "gist.github.com")
         | Some(host @ "bitbucket.org") => {
-            let path = (url.path()[1..])
+            // (There isn't always a path.)
+            let path = url
+                .path()
+                .strip_prefix('/')
+                .unwrap_or_default()
                 .split('/')
                 .map(String::from)
                 .collect::<Vec<String>>();
-- 
2.43.0


From f75a7b09fcb35bb25b50b22ea4d54b4f94921634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:09 +0000
Subject: [PATCH 53/79] fix: only take .git off the end of a repo's name

---
 crates/oro-package-spec/src/parsers/git.rs | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/crates/oro-package-spec/src/parsers/git.rs b/crates/oro-package-spec/src/parsers/git.rs
index 896f93e..7fc6650 100644
--- a/crates/oro-package-spec/src/parsers/git.rs
+++ b/crates/oro-package-spec/src/parsers/git.rs
@@ -105,11 +105,7 @@ fn git_url(input: &str) -> IResult<&str, GitInfo, SpecParseError<&str>> {
                             _ => unreachable!(),
                         },
                         owner: owner.clone(),
-                        repo: if repo.ends_with(".git") {
-                            String::from(&repo[..].replace(".git", ""))
-                        } else {
-                            repo.clone()
-                        },
+                        repo: repo.strip_suffix(".git").unwrap_or(repo).into(),
                         committish,
                         semver,
                         requested: Some(url.to_string()),
@@ -163,11 +159,6 @@ fn git_scp(input: &str) -> IResult<&str, GitInfo, SpecParseError<&str>> {
                 .map(String::from)
                 .collect::<Vec<String>>();
             if let [owner, repo] = &path[..] {
-                let repo = if repo.ends_with(".git") {
-                    String::from(&repo[..].replace(".git", ""))
-                } else {
-                    repo.clone()
-                };
                 Ok((
                     input,
                     GitInfo::Hosted {
@@ -179,11 +170,7 @@ fn git_scp(input: &str) -> IResult<&str, GitInfo, SpecParseError<&str>> {
                             _ => unreachable!(),
                         },
                         owner: owner.clone(),
-                        repo: if repo.ends_with(".git") {
-                            String::from(&repo[..].replace(".git", ""))
-                        } else {
-                            repo
-                        },
+                        repo: repo.strip_suffix(".git").unwrap_or(repo).into(),
                         committish,
                         semver,
                         requested: Some(raw),
-- 
2.43.0


From 530f149da87538d64851b6353f813ebadb7aab23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:09 +0000
Subject: [PATCH 54/79] fix: print scp-style hosted git specs so that they can
 be read back

---
 crates/oro-package-spec/src/gitinfo.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/oro-package-spec/src/gitinfo.rs b/crates/oro-package-spec/src/gitinfo.rs
index 9746d40..f9047a6 100644
--- a/crates/oro-package-spec/src/gitinfo.rs
+++ b/crates/oro-package-spec/src/gitinfo.rs
@@ -208,6 +208,10 @@ impl fmt::Display for GitInfo {
                     if !requested.starts_with("git://") {
                         write!(f, "git+")?;
                     }
+                    // SCP-style locations don't come with their scheme.
+                    if !requested.contains("://") {
+                        write!(f, "ssh://")?;
+                    }
                     write!(f, "{requested}")?;
                 } else {
                     write!(f, "{host}:{owner}/{repo}")?;
-- 
2.43.0


From b23627bdaf5bc7ff7cb1fa123a731b64b1f79839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:09 +0000
Subject: [PATCH 55/79] fix: parse ssh:// URLs as git specs

---
 crates/oro-package-spec/src/parsers/git.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oro-package-spec/src/parsers/git.rs b/crates/oro-package-spec/src/parsers/git.rs
index 7fc6650..c11b152 100644
--- a/crates/oro-package-spec/src/parsers/git.rs
+++ b/crates/oro-package-spec/src/parsers/git.rs
@@ -76,7 +76,7 @@ fn semver_range(input: &str) -> IResult<&str, Range, SpecParseError<&str>> {
 
 fn git_url(input: &str) -> IResult<&str, GitInfo, SpecParseError<&str>> {
     let (input, url) = preceded(
-        alt((tag("git+"), peek(tag("git://")))),
+        alt((tag("git+"), peek(tag("git://")), peek(tag("ssh://")))),
         map_res(take_till1(|c| c == '#'), Url::parse),
     )(input)?;
     let (input, (committish, semver)) = committish(input)?;
-- 
2.43.0


From 055fe085e59e5a9de04a0f80c24bb3c53863763f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:10 +0000
Subject: [PATCH 56/79] fix: ask GitHub for tar.gz archives

---
 crates/oro-package-spec/src/gitinfo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oro-package-spec/src/gitinfo.rs b/crates/oro-package-spec/src/gitinfo.rs
index f9047a6..56a1e32 100644
--- a/crates/oro-package-spec/src/gitinfo.rs
+++ b/crates/oro-package-spec/src/gitinfo.rs
@@ -151,7 +151,7 @@ impl GitInfo {
             } => committish
                 .as_ref()
                 .map(|commit| match host {
-                    GitHub => format!("https://codeload.github.com/{owner}/{repo}/tag.gz/{commit}"),
+                    GitHub => format!("https://codeload.github.com/{owner}/{repo}/tar.gz/{commit}"),
                     Gist => format!("https://codeload.github.com/gist/{repo}/tar.gz/{commit}"),
                     GitLab => format!(
                         "https://gitlab.com/{owner}/{repo}/repository/archive.tar.gz?ref={commit}"
-- 
2.43.0


From b362d87e72aece73249e3c72e5f2cfc9fd36a246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:10 +0000
Subject: [PATCH 57/79] fix: don't fail a command because an old log can't be
 removed

---
 src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ee4ac44..944d803 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -355,7 +355,7 @@ impl Orogene {
                 .with_default(LevelFilter::TRACE);
 
             let logs_dir = log_file.parent().expect("must have parent");
-            clean_old_logs(logs_dir)?;
+            clean_old_logs(logs_dir);
 
             let file_appender = tracing_appender::rolling::never(
                 logs_dir,
@@ -779,16 +779,16 @@ fn log_file_name() -> PathBuf {
     PathBuf::from(format!("{}-0.log", prefix))
 }
 
-fn clean_old_logs(logs_dir: &Path) -> Result<()> {
+fn clean_old_logs(logs_dir: &Path) {
     if let Ok(readdir) = logs_dir.read_dir() {
         let mut logs = readdir.filter_map(|e| e.ok()).collect::<Vec<_>>();
         logs.sort_by_key(|e| e.file_name());
         while logs.len() >= MAX_RETAINED_LOGS {
             let log = logs.remove(0);
-            std::fs::remove_file(log.path()).into_diagnostic()?;
+            // Another command may be cleaning up at the same time.
+            let _ = std::fs::remove_file(log.path());
         }
     }
-    Ok(())
 }
 
 fn log_command_line() {
-- 
2.43.0


From f4228b7ce4f679640c5fcc8645f746e101a9d54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:43 +0000
Subject: [PATCH 58/79] fix: don't panic on ranges like =* and ~x

---
 crates/oro-package-spec/src/parsers/git.rs  |  2 +-
 crates/oro-package-spec/src/parsers/npm.rs  |  2 +-
 crates/oro-package-spec/src/parsers/util.rs | 23 +++++++++++++++++++++
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/crates/oro-package-spec/src/parsers/git.rs b/crates/oro-package-spec/src/parsers/git.rs
index c11b152..92d2cd6 100644
--- a/crates/oro-package-spec/src/parsers/git.rs
+++ b/crates/oro-package-spec/src/parsers/git.rs
@@ -70,7 +70,7 @@ fn committish(input: &str) -> IResult<&str, (Option<String>, Option<Range>), Spe
 }
 
 fn semver_range(input: &str) -> IResult<&str, Range, SpecParseError<&str>> {
-    let (input, range) = map_res(take_till1(|_| false), Range::parse)(input)?;
+    let (input, range) = map_res(take_till1(|_| false), util::semver_range)(input)?;
     Ok((input, range))
 }
 
diff --git a/crates/oro-package-spec/src/parsers/npm.rs b/crates/oro-package-spec/src/parsers/npm.rs
index 6cd6470..b4d10e3 100644
--- a/crates/oro-package-spec/src/parsers/npm.rs
+++ b/crates/oro-package-spec/src/parsers/npm.rs
@@ -60,7 +60,7 @@ fn semver_version(input: &str) -> IResult<&str, VersionSpec, SpecParseError<&str
 }
 
 fn semver_range(input: &str) -> IResult<&str, VersionSpec, SpecParseError<&str>> {
-    let (input, range) = map_res(take_till1(|_| false), SemVerRange::parse)(input)?;
+    let (input, range) = map_res(take_till1(|_| false), util::semver_range)(input)?;
     Ok((input, VersionSpec::Range(range)))
 }
 
diff --git a/crates/oro-package-spec/src/parsers/util.rs b/crates/oro-package-spec/src/parsers/util.rs
index d75374a..cc45457 100644
--- a/crates/oro-package-spec/src/parsers/util.rs
+++ b/crates/oro-package-spec/src/parsers/util.rs
@@ -1,3 +1,4 @@
+use node_semver::{Range, SemverError};
 use percent_encoding::{utf8_percent_encode, AsciiSet, NON_ALPHANUMERIC};
 
 use crate::error::{SpecErrorKind, SpecParseError};
@@ -26,3 +27,25 @@ pub(crate) fn no_url_encode(tag: &str) -> Result<&str, SpecParseError<&str>> {
         })
     }
 }
+
+/// Parses a semver range. An `=` or `~` in front of a wildcard changes
+/// nothing, but node-semver panics on those, so they're left out.
+pub(crate) fn semver_range(input: &str) -> Result<Range, SemverError> {
+    let mut range = String::with_capacity(input.len());
+    for c in input.chars() {
+        if c == '>' && range.trim_end().ends_with('~') {
+            // `~>` is another way to write `~`.
+            continue;
+        }
+        while matches!(c, '*' | 'x' | 'X') {
+            let before = range.trim_end_matches(|c: char| c == 'v' || c.is_whitespace());
+            let rest = before.trim_end_matches(['=', '~', '<', '>']);
+            if rest.len() == before.len() || before[rest.len()..].contains(['<', '>']) {
+                break;
+            }
+            range.truncate(rest.len());
+        }
+        range.push(c);
+    }
+    Range::parse(range)
+}
-- 
2.43.0


From 5dce30f1646093318652d02c58e5d9b985490d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:05 +0000
Subject: [PATCH 59/79] fix: don't remove content that other packages use from
 the cache

---
 crates/nassun/src/package.rs | 32 ++++++--------------------------
 1 file changed, 6 insertions(+), 26 deletions(-)

diff --git a/crates/nassun/src/package.rs b/crates/nassun/src/package.rs
index 659a7fc..5e5038b 100644
--- a/crates/nassun/src/package.rs
+++ b/crates/nassun/src/package.rs
@@ -225,13 +225,8 @@ impl Package {
                         // extract.
                         Err(e) => {
                             tracing::warn!("extracting package {:?} from cache failed, possily due to cache corruption: {e}", self.resolved());
-                            if let Some(entry) =
-                                cacache::index::find(cache, &crate::tarball::tarball_key(&sri))
-                                    .map_err(|e| NassunError::ExtractCacheError(e, None))?
-                            {
-                                tracing::debug!("removing corrupted cache entry.");
-                                clean_from_cache(cache, &sri, entry)?;
-                            }
+                            tracing::debug!("removing corrupted cache entry.");
+                            clean_from_cache(cache, &sri)?;
                             return self
                                 .tarball_checked(sri)
                                 .await?
@@ -320,25 +315,10 @@ impl fmt::Debug for Package {
 }
 
 #[cfg(not(target_arch = "wasm32"))]
-fn clean_from_cache(cache: &Path, sri: &Integrity, entry: cacache::Metadata) -> Result<()> {
-    // If the index itself is damaged, there's no telling what its files were.
-    let index = entry
-        .raw_metadata
-        .as_ref()
-        .and_then(|data| rkyv::check_archived_root::<TarballIndex>(data).ok());
-    for (sri, _) in index.iter().flat_map(|index| index.files.values()) {
-        let Ok(sri) = sri.parse::<Integrity>() else {
-            continue;
-        };
-        match cacache::remove_hash_sync(cache, &sri) {
-            Ok(_) => {}
-            // We don't care if the file doesn't exist.
-            Err(cacache::Error::IoError(e, _)) if e.kind() == std::io::ErrorKind::NotFound => {}
-            Err(e) => {
-                return Err(NassunError::ExtractCacheError(e, None));
-            }
-        }
-    }
+fn clean_from_cache(cache: &Path, sri: &Integrity) -> Result<()> {
+    // The files themselves are left alone: they may be part of other packages
+    // that are being extracted right now, and the ones that are damaged will
+    // be replaced when this package is extracted again.
     cacache::remove_sync(cache, crate::tarball::tarball_key(sri))
         .map_err(|e| NassunError::ExtractCacheError(e, None))?;
     Ok(())
-- 
2.43.0


From fede5461ffb0cf6b5962d24b94d1b1524953906b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:20 +0000
Subject: [PATCH 60/79] fix: don't panic on hosted git specs that don't name a
 committish

---
 crates/nassun/src/fetch/git.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/crates/nassun/src/fetch/git.rs b/crates/nassun/src/fetch/git.rs
index c63c939..649bb87 100644
--- a/crates/nassun/src/fetch/git.rs
+++ b/crates/nassun/src/fetch/git.rs
@@ -62,22 +62,20 @@ impl GitFetcher {
                     if let Some(requested) = requested {
                         self.fetch_clone(dir, requested, committish, semver, info)
                             .await?;
-                    } else if let (Some(tarball), Some(https), Some(ssh)) =
-                        (hosted.tarball(), hosted.https(), hosted.ssh())
-                    {
-                        match self.fetch_tarball(dir, &tarball).await {
+                    } else if let (Some(https), Some(ssh)) = (hosted.https(), hosted.ssh()) {
+                        // There's only a tarball to be had of a specific committish.
+                        if let Some(tarball) = hosted.tarball() {
+                            if self.fetch_tarball(dir, &tarball).await.is_ok() {
+                                return Ok(());
+                            }
+                        }
+                        match self
+                            .fetch_clone(dir, https.to_string(), committish, semver, info)
+                            .await
+                        {
                             Ok(_) => {}
                             Err(_) => {
-                                match self
-                                    .fetch_clone(dir, https.to_string(), committish, semver, info)
-                                    .await
-                                {
-                                    Ok(_) => {}
-                                    Err(_) => {
-                                        self.fetch_clone(dir, ssh, committish, semver, info)
-                                            .await?;
-                                    }
-                                }
+                                self.fetch_clone(dir, ssh, committish, semver, info).await?;
                             }
                         }
                     } else {
-- 
2.43.0


From 8a5db5570e4cc416d25194f6555c6819385c68e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:20 +0000
Subject: [PATCH 61/79] fix: check out the tag a git semver range matched,
 however it's written

---
 crates/nassun/src/fetch/git.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/crates/nassun/src/fetch/git.rs b/crates/nassun/src/fetch/git.rs
index 649bb87..d7a9083 100644
--- a/crates/nassun/src/fetch/git.rs
+++ b/crates/nassun/src/fetch/git.rs
@@ -136,28 +136,29 @@ impl GitFetcher {
                 .output()
                 .await
                 .map_err(NassunError::GitIoError)?;
-            let versions: Vec<Version> = String::from_utf8(refs_output.stdout)
+            let tags: Vec<(Version, String)> = String::from_utf8(refs_output.stdout)
                 .map_err(|e| {
                     NassunError::MiscError(format!("Could not decode git output as UTF-8. {}", e))
                 })?
                 .lines()
                 .filter_map(|line| {
-                    line.split('/')
-                        .last()
-                        .and_then(|tag| Version::parse(tag).ok())
+                    let (_, tag) = line.split_once(' ')?;
+                    let version = Version::parse(tag.split('/').last()?).ok()?;
+                    Some((version, tag.to_string()))
                 })
                 .collect();
             Some(
-                versions
-                    .iter()
-                    .filter(|v| range.satisfies(v))
-                    .max()
+                tags.iter()
+                    .filter(|(v, _)| range.satisfies(v))
+                    .max_by(|(a, _), (b, _)| a.cmp(b))
                     .ok_or_else(|| NassunError::NoVersion {
                         name: repo.to_string(),
                         spec: PackageSpec::Git(info.clone()),
-                        versions: versions.iter().map(|v| v.to_string()).collect(),
+                        versions: tags.iter().map(|(v, _)| v.to_string()).collect(),
                     })?
-                    .to_string(),
+                    // The tag itself: it isn't always just a version.
+                    .1
+                    .clone(),
             )
         } else {
             committish.clone()
-- 
2.43.0


From 81adb35f95f36d5af26365c3e322dab16d63be50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:20 +0000
Subject: [PATCH 62/79] fix: look for a hosted git package where its tarball
 was extracted

---
 crates/nassun/src/fetch/git.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/nassun/src/fetch/git.rs b/crates/nassun/src/fetch/git.rs
index d7a9083..003997e 100644
--- a/crates/nassun/src/fetch/git.rs
+++ b/crates/nassun/src/fetch/git.rs
@@ -91,7 +91,7 @@ impl GitFetcher {
     async fn fetch_tarball(&self, dir: &Path, tarball: &Url) -> Result<()> {
         let tarball = self.client.stream_external(tarball).await?;
         Tarball::new_unchecked(tarball)
-            .extract_from_tarball_data(dir, None, crate::ExtractMode::AutoHardlink)
+            .extract_from_tarball_data(&dir.join("package"), None, crate::ExtractMode::AutoHardlink)
             .await?;
         Ok(())
     }
@@ -108,6 +108,8 @@ impl GitFetcher {
         let git = self
             .git
             .get_or_try_init(|| which::which("git").map_err(NassunError::WhichGit))?;
+        // Whatever a previous attempt left behind.
+        let _ = async_std::fs::remove_dir_all(dir.join("package")).await;
         Command::new(git)
             .arg("clone")
             .arg(repo)
-- 
2.43.0


From 15e8b66e7d8e475259033c032abfc2c9d724b958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:20 +0000
Subject: [PATCH 63/79] fix: only take refs for the committish of a git spec

---
 crates/nassun/src/fetch/git.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/nassun/src/fetch/git.rs b/crates/nassun/src/fetch/git.rs
index 003997e..4635dfb 100644
--- a/crates/nassun/src/fetch/git.rs
+++ b/crates/nassun/src/fetch/git.rs
@@ -166,9 +166,18 @@ impl GitFetcher {
             committish.clone()
         };
         if let Some(checkout_ref) = checkout_ref {
+            if checkout_ref.starts_with('-') {
+                // It'd be taken for an option, and no ref starts like that.
+                return Err(NassunError::GitCheckoutError(
+                    String::from(repo),
+                    checkout_ref,
+                ));
+            }
             Command::new(git)
                 .arg("checkout")
                 .arg(&checkout_ref)
+                // Or else it could be the name of a file.
+                .arg("--")
                 .current_dir(dir.join("package"))
                 .stdin(Stdio::null())
                 .stdout(Stdio::null())
-- 
2.43.0


From 3881994fff68fa5e141702d4c35efc5890e03cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:20 +0000
Subject: [PATCH 64/79] fix: don't panic on aliases of directories

---
 crates/nassun/src/fetch/dir.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/nassun/src/fetch/dir.rs b/crates/nassun/src/fetch/dir.rs
index 3c2e48b..9ed217a 100644
--- a/crates/nassun/src/fetch/dir.rs
+++ b/crates/nassun/src/fetch/dir.rs
@@ -125,7 +125,7 @@ impl PackageFetcher for DirFetcher {
     }
 
     async fn packument(&self, spec: &PackageSpec, base_dir: &Path) -> Result<Arc<Packument>> {
-        let path = match spec {
+        let path = match spec.target() {
             PackageSpec::Dir { path } => base_dir.join(path),
             _ => panic!("There shouldn't be anything but Dirs here"),
         };
@@ -137,7 +137,7 @@ impl PackageFetcher for DirFetcher {
         spec: &PackageSpec,
         base_dir: &Path,
     ) -> Result<Arc<CorgiPackument>> {
-        let path = match spec {
+        let path = match spec.target() {
             PackageSpec::Dir { path } => base_dir.join(path),
             _ => panic!("There shouldn't be anything but Dirs here"),
         };
-- 
2.43.0


From 06623cefd41f2322d4fa82820aa31f1714d27935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:20 +0000
Subject: [PATCH 65/79] fix: list a package's dependencies even if one is too
 wide for the terminal

---
 src/commands/view.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/commands/view.rs b/src/commands/view.rs
index 6c1d262..05992ac 100644
--- a/src/commands/view.rs
+++ b/src/commands/view.rs
@@ -178,12 +178,13 @@ impl OroCommand for ViewCmd {
                     let val = format!("{}: {}", dep.yellow(), version);
                     grid.add(Cell::from(val));
                 }
-                if let Some(out) = grid.fit_into_width(width) {
-                    print!("dependencies:\n{out}");
-                    let count = dependencies.len();
-                    if count > max_deps {
-                        println!("(...and {} more)", count - max_deps);
-                    }
+                let out = grid
+                    .fit_into_width(width)
+                    .unwrap_or_else(|| grid.fit_into_columns(1));
+                print!("dependencies:\n{out}");
+                let count = dependencies.len();
+                if count > max_deps {
+                    println!("(...and {} more)", count - max_deps);
                 }
                 println!();
             }
-- 
2.43.0


From c804950b67bdad817a237f8181ddb788a13394cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:45 +0000
Subject: [PATCH 66/79] fix: validate tarballs whose entries are streamed

Archives end before their tarballs do, so the integrity of a tarball was
never checked if its entries were read as a stream.
---
 crates/nassun/src/tarball.rs | 65 ++++++++++++++++++++++++++++--------
 1 file changed, 52 insertions(+), 13 deletions(-)

diff --git a/crates/nassun/src/tarball.rs b/crates/nassun/src/tarball.rs
index df5f058..da82816 100644
--- a/crates/nassun/src/tarball.rs
+++ b/crates/nassun/src/tarball.rs
@@ -7,6 +7,7 @@ use std::io::{Read, Seek};
 #[cfg(not(target_arch = "wasm32"))]
 use std::path::{Component, Path, PathBuf};
 use std::pin::Pin;
+use std::sync::{Arc, Mutex};
 use std::task::{Context, Poll};
 #[cfg(not(target_arch = "wasm32"))]
 use std::time::Duration;
@@ -20,7 +21,7 @@ use backon::{BlockingRetryable, ConstantBuilder};
 use cacache::WriteOpts;
 #[cfg(not(target_arch = "wasm32"))]
 use futures::AsyncReadExt;
-use futures::{AsyncRead, StreamExt};
+use futures::{AsyncRead, Stream};
 #[cfg(not(target_arch = "wasm32"))]
 use oro_common::BuildManifest;
 #[cfg(not(target_arch = "wasm32"))]
@@ -140,29 +141,67 @@ impl Tarball {
 
     /// A `Stream` of extracted entries from this tarball.
     pub(crate) fn entries(self) -> Result<Entries> {
-        let decoder = GzipDecoder::new(BufReader::new(self));
+        let mut source = SharedTarball(Arc::new(Mutex::new(self)));
+        let decoder = GzipDecoder::new(BufReader::new(Tarball::new_unchecked(Box::new(
+            source.clone(),
+        ))));
         let ar = Archive::new(decoder);
+        let mut entries = ar
+            .clone()
+            .entries()
+            .map_err(|e| NassunError::ExtractIoError(e, None, "getting archive entries".into()))?;
+        let mut ended = false;
+        let mut drain_buf = [0u8; 1024 * 8];
         Ok(Entries(
-            ar.clone(),
-            Box::new(
-                ar.entries()
-                    .map_err(|e| {
-                        NassunError::ExtractIoError(e, None, "getting archive entries".into())
-                    })?
-                    .map(|res| {
-                        res.map(Entry).map_err(|e| {
+            ar,
+            Box::new(futures::stream::poll_fn(move |cx| {
+                if !ended {
+                    if let Some(res) = futures::ready!(Pin::new(&mut entries).poll_next(cx)) {
+                        return Poll::Ready(Some(res.map(Entry).map_err(|e| {
                             NassunError::ExtractIoError(
                                 e,
                                 None,
                                 "reading entry from archive.".into(),
                             )
-                        })
-                    }),
-            ),
+                        })));
+                    }
+                    ended = true;
+                }
+                // Archives end before their tarballs do, and it's only once
+                // all of it has been read that its integrity is checked.
+                loop {
+                    match futures::ready!(Pin::new(&mut source).poll_read(cx, &mut drain_buf)) {
+                        Ok(0) => return Poll::Ready(None),
+                        Ok(_) => {}
+                        Err(e) => {
+                            return Poll::Ready(Some(Err(NassunError::ExtractIoError(
+                                e,
+                                None,
+                                "draining the rest of the tarball.".into(),
+                            ))))
+                        }
+                    }
+                }
+            })),
         ))
     }
 }
 
+/// Reads from the same underlying [`Tarball`] as its clones.
+#[derive(Clone)]
+struct SharedTarball(Arc<Mutex<Tarball>>);
+
+impl AsyncRead for SharedTarball {
+    fn poll_read(
+        self: Pin<&mut Self>,
+        cx: &mut Context<'_>,
+        buf: &mut [u8],
+    ) -> Poll<std::io::Result<usize>> {
+        let mut tarball = self.0.lock().unwrap();
+        Pin::new(&mut *tarball).poll_read(cx, buf)
+    }
+}
+
 impl AsyncRead for Tarball {
     fn poll_read(
         mut self: Pin<&mut Self>,
-- 
2.43.0


From 141d7249a07b4e822dff8de52f2760ddf7c1d563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:45 +0000
Subject: [PATCH 67/79] fix: don't take reading nothing for the end of a
 tarball

---
 crates/nassun/src/tarball.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/nassun/src/tarball.rs b/crates/nassun/src/tarball.rs
index da82816..c8a5da4 100644
--- a/crates/nassun/src/tarball.rs
+++ b/crates/nassun/src/tarball.rs
@@ -214,7 +214,8 @@ impl AsyncRead for Tarball {
             if amt > 0 {
                 checker.input(&buf[..amt]);
             } else {
-                checker_done = true;
+                // Reading into an empty buffer isn't reading to the end.
+                checker_done = !buf.is_empty();
             }
         }
         if checker_done
-- 
2.43.0


From 2f865938c4fb22e46c167444201bcdf2047e66ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:45 +0000
Subject: [PATCH 68/79] fix: don't panic on packages with an empty integrity

---
 crates/nassun/src/resolver.rs          | 2 ++
 crates/node-maintainer/src/lockfile.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/crates/nassun/src/resolver.rs b/crates/nassun/src/resolver.rs
index 0e74725..42a7af0 100644
--- a/crates/nassun/src/resolver.rs
+++ b/crates/nassun/src/resolver.rs
@@ -281,6 +281,8 @@ impl PackageResolver {
                         .dist
                         .integrity
                         .as_ref()
+                        // An empty `integrity` has nothing to check against.
+                        .filter(|i| !i.trim().is_empty())
                         .map(|i| i.parse())
                         .or_else(|| {
                             v.dist
diff --git a/crates/node-maintainer/src/lockfile.rs b/crates/node-maintainer/src/lockfile.rs
index 8337711..5006f4e 100644
--- a/crates/node-maintainer/src/lockfile.rs
+++ b/crates/node-maintainer/src/lockfile.rs
@@ -312,6 +312,7 @@ impl LockfileNode {
         let integrity = children
             .get_arg("integrity")
             .and_then(|i| i.as_string())
+            .filter(|i| !i.trim().is_empty())
             .map(|i| i.parse())
             .transpose()
             .map_err(|e| NodeMaintainerError::KdlLockfileIntegrityParseError(node.clone(), e))?;
@@ -467,6 +468,7 @@ impl LockfileNode {
         let integrity = npm
             .integrity
             .as_ref()
+            .filter(|i| !i.trim().is_empty())
             .map(|i| i.parse())
             .transpose()
             .map_err(|e| {
-- 
2.43.0


From 7060ba5242ee683d4c8d97fcd01a94a3cbc8de83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:14 +0000
Subject: [PATCH 69/79] fix: don't take what an interrupted reapply leaves for
 an install

---
 src/commands/reapply.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/commands/reapply.rs b/src/commands/reapply.rs
index 58c25de..7f2fba1 100644
--- a/src/commands/reapply.rs
+++ b/src/commands/reapply.rs
@@ -1,6 +1,7 @@
 use async_trait::async_trait;
 use clap::Args;
 use miette::{IntoDiagnostic, Result};
+use node_maintainer::META_FILE_NAME;
 use oro_common::CorgiManifest;
 
 use crate::apply_args::ApplyArgs;
@@ -27,6 +28,12 @@ impl OroCommand for ReapplyCmd {
                 if self.apply.emoji { "🚮 " } else { "" },
             );
 
+            // What's left if we're interrupted must not be taken for a
+            // complete install, so the record of what's installed goes first.
+            let meta = nm.join(META_FILE_NAME);
+            if meta.exists() {
+                std::fs::remove_file(meta).into_diagnostic()?;
+            }
             std::fs::remove_dir_all(nm).into_diagnostic()?;
 
             tracing::info!(
-- 
2.43.0


From b78de04c15f23e3b34dd3beaab37b6d6b4afb4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:36 +0000
Subject: [PATCH 70/79] fix: only enable telemetry for those who opted in

---
 src/lib.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 944d803..8e1fd22 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -709,6 +709,8 @@ impl Orogene {
             .map(|c| c.join("_logs").join(log_file_name()));
         let _logging_guard = oro.setup_logging(log_file.as_deref())?;
         oro.first_time_setup()?;
+        // (The config may have an answer in it now that it didn't before.)
+        oro.telemetry = is_opted_in(&matches, &oro.build_config(&matches)?);
         let _telemetry_guard = oro.setup_telemetry(log_file.clone())?;
         let do_term_progress = !oro.quiet && oro.progress;
         if do_term_progress {
@@ -753,6 +755,17 @@ impl Orogene {
     }
 }
 
+/// Telemetry is opt-in, so it's only enabled if something says it should be.
+fn is_opted_in(matches: &ArgMatches, config: &OroConfig) -> bool {
+    let is_given = |id| matches.value_source(id) == Some(ValueSource::CommandLine);
+    if is_given("no-no-telemetry") || is_given("telemetry") {
+        // `--telemetry` and `--no-telemetry`, in that order.
+        is_given("no-no-telemetry")
+    } else {
+        config.get::<bool>("telemetry").unwrap_or(false)
+    }
+}
+
 fn pkg_root(start_dir: &Path) -> Option<&Path> {
     for path in start_dir.ancestors() {
         let node_modules = path.join("node_modules");
-- 
2.43.0


From 4a7fd6dff40b19497e40562d771e66fcdff917eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:04 +0000
Subject: [PATCH 71/79] fix: have the config say what was answered in
 first-time setup

---
 src/lib.rs | 74 ++++++++++++++++++------------------------------------
 1 file changed, 24 insertions(+), 50 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8e1fd22..d930ec5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -528,65 +528,19 @@ impl Orogene {
             }) {
                 let config_dir = config_path.parent().expect("must have parent");
                 if !config_dir.exists() {
-                    std::fs::create_dir_all(config_dir).unwrap();
+                    std::fs::create_dir_all(config_dir).into_diagnostic()?;
                 }
                 let mut config: KdlDocument = std::fs::read_to_string(&config_path)
                     .unwrap_or_default()
                     .parse()?;
-                let telemetry_exists = config.query("options > telemetry")?.is_some();
                 if config.get("options").is_none() {
                     config.nodes_mut().push(KdlNode::new("options"));
                 }
                 if std::io::stdout().is_terminal() {
-                    if let Some(opts) = config.get_mut("options") {
-                        self.telemetry = self.prompt_telemetry_opt_in()?;
-                        if !telemetry_exists {
-                            let mut node = KdlNode::new("telemetry");
-                            node.push(KdlValue::Bool(self.telemetry));
-                            opts.ensure_children();
-                            if let Some(doc) = opts.children_mut().as_mut() {
-                                doc.nodes_mut().push(node)
-                            }
-                        }
-                        if let Some(opt) = config
-                            .get_mut("options")
-                            .unwrap()
-                            .children_mut()
-                            .as_mut()
-                            .unwrap()
-                            .get_mut("telemetry")
-                        {
-                            if let Some(val) = opt.get_mut(0) {
-                                *val = self.telemetry.into();
-                            } else {
-                                opt.push(KdlValue::Bool(self.telemetry));
-                            }
-                        }
-                    }
-                }
-                if config.query("options > first-time")?.is_none() {
-                    let mut node = KdlNode::new("first-time");
-                    node.push(KdlValue::Bool(false));
-                    let opts = config.get_mut("options").unwrap();
-                    opts.ensure_children();
-                    if let Some(doc) = opts.children_mut().as_mut() {
-                        doc.nodes_mut().push(node)
-                    }
-                }
-                if let Some(opt) = config
-                    .get_mut("options")
-                    .unwrap()
-                    .children_mut()
-                    .as_mut()
-                    .unwrap()
-                    .get_mut("first-time")
-                {
-                    if let Some(val) = opt.get_mut(0) {
-                        *val = false.into();
-                    } else {
-                        opt.push(KdlValue::Bool(false));
-                    }
+                    self.telemetry = self.prompt_telemetry_opt_in()?;
+                    set_option(&mut config, "telemetry", self.telemetry);
                 }
+                set_option(&mut config, "first-time", false);
                 std::fs::write(config_path, config.to_string()).into_diagnostic()?;
             }
         }
@@ -755,6 +709,26 @@ impl Orogene {
     }
 }
 
+/// Sets an option in a config document that has an `options` node.
+fn set_option(config: &mut KdlDocument, name: &str, value: bool) {
+    // This is the only `options` node that's going to be looked at.
+    let Some(opts) = config.get_mut("options") else {
+        return;
+    };
+    opts.ensure_children();
+    let Some(opts) = opts.children_mut() else {
+        return;
+    };
+    if opts.get(name).is_none() {
+        opts.nodes_mut().push(KdlNode::new(name));
+    }
+    if let Some(opt) = opts.get_mut(name) {
+        // (Changing entries' values doesn't change how they're written.)
+        opt.clear_entries();
+        opt.push(KdlValue::Bool(value));
+    }
+}
+
 /// Telemetry is opt-in, so it's only enabled if something says it should be.
 fn is_opted_in(matches: &ArgMatches, config: &OroConfig) -> bool {
     let is_given = |id| matches.value_source(id) == Some(ValueSource::CommandLine);
-- 
2.43.0


From e4b1cd189d9eefebdd8de26902205d9195163c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:14 +0000
Subject: [PATCH 72/79] fix: don't leave half-written config files behind

---
 src/commands/login.rs  |  2 +-
 src/commands/logout.rs |  2 +-
 src/commands/mod.rs    | 23 +++++++++++++++++++++++
 src/lib.rs             |  2 +-
 4 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/commands/login.rs b/src/commands/login.rs
index c0b5feb..2926c42 100644
--- a/src/commands/login.rs
+++ b/src/commands/login.rs
@@ -113,7 +113,7 @@ impl OroCommand for LoginCmd {
                 config::set_scoped_registry(&scope, &self.registry, &mut config);
             }
 
-            std::fs::write(config_path, config.to_string()).into_diagnostic()?;
+            super::write_config(config_path, &config)?;
         }
         Ok(())
     }
diff --git a/src/commands/logout.rs b/src/commands/logout.rs
index a9a983a..c65bbfa 100644
--- a/src/commands/logout.rs
+++ b/src/commands/logout.rs
@@ -46,7 +46,7 @@ impl OroCommand for LogoutCmd {
             }
 
             config::clear_crendentials_by_uri(&self.registry, &mut config);
-            std::fs::write(config_path, config.to_string()).into_diagnostic()?;
+            super::write_config(config_path, &config)?;
         }
         Ok(())
     }
diff --git a/src/commands/mod.rs b/src/commands/mod.rs
index abf192d..702c98c 100644
--- a/src/commands/mod.rs
+++ b/src/commands/mod.rs
@@ -1,7 +1,9 @@
+use std::io::Write;
 use std::path::Path;
 
 use async_std::fs;
 use async_trait::async_trait;
+use kdl::KdlDocument;
 use miette::{IntoDiagnostic, Result};
 use oro_pretty_json::Formatted;
 
@@ -19,6 +21,27 @@ pub trait OroCommand {
     async fn execute(self) -> Result<()>;
 }
 
+/// Writes a config file. It's written on the side first, so that there's no
+/// point at which only part of it, and of the credentials in it, is there.
+pub(crate) fn write_config(path: &Path, config: &KdlDocument) -> Result<()> {
+    // (If it's a symlink, what gets replaced is what it points to.)
+    let path = match std::fs::canonicalize(path) {
+        Ok(path) if path.is_file() => path,
+        Err(_) if path.symlink_metadata().is_err() => path.to_path_buf(),
+        _ => return std::fs::write(path, config.to_string()).into_diagnostic(),
+    };
+    let temp = path.with_extension("kdl.tmp");
+    let mut file = std::fs::File::create(&temp).into_diagnostic()?;
+    if let Ok(meta) = path.metadata() {
+        file.set_permissions(meta.permissions()).into_diagnostic()?;
+    }
+    file.write_all(config.to_string().as_bytes())
+        .into_diagnostic()?;
+    drop(file);
+    std::fs::rename(&temp, &path).into_diagnostic()?;
+    Ok(())
+}
+
 /// Replaces the package.json in `root`. It's written on the side first, so
 /// that there's no point at which only part of it is there.
 async fn write_package_json(root: &Path, manifest: &Formatted) -> Result<()> {
diff --git a/src/lib.rs b/src/lib.rs
index d930ec5..184f232 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -541,7 +541,7 @@ impl Orogene {
                     set_option(&mut config, "telemetry", self.telemetry);
                 }
                 set_option(&mut config, "first-time", false);
-                std::fs::write(config_path, config.to_string()).into_diagnostic()?;
+                commands::write_config(&config_path, &config)?;
             }
         }
         Ok(())
-- 
2.43.0


From 41bcbcc90329cc254dfed21c08bc0fd5e015b7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:06 +0000
Subject: [PATCH 73/79] fix: keep credentials out of debug logs and error
 messages

---
 crates/oro-client/src/api/packument.rs |  6 ++---
 crates/oro-client/src/error.rs         | 12 +++++++++
 src/commands/login.rs                  |  5 +++-
 src/commands/ping.rs                   |  6 ++++-
 src/lib.rs                             | 37 +++++++++++++++++++++++++-
 5 files changed, 60 insertions(+), 6 deletions(-)

diff --git a/crates/oro-client/src/api/packument.rs b/crates/oro-client/src/api/packument.rs
index b0a6899..412add4 100644
--- a/crates/oro-client/src/api/packument.rs
+++ b/crates/oro-client/src/api/packument.rs
@@ -1,7 +1,7 @@
 use oro_common::{CorgiPackument, Packument};
 use reqwest::{StatusCode, Url};
 
-use crate::{OroClient, OroClientError};
+use crate::{error::without_credentials, OroClient, OroClientError};
 
 pub(crate) const CORGI_HEADER: &str =
     "application/vnd.npm.install-v1+json; q=1.0,application/json; q=0.8,*/*";
@@ -15,7 +15,7 @@ impl OroClient {
         tracing::trace!(
             "fetching packument for {} from {}",
             package_name.as_ref(),
-            url
+            without_credentials(&url)
         );
         let text = self.packument_impl(package_name, &url, false).await?;
         serde_json::from_str(&text)
@@ -56,7 +56,7 @@ impl OroClient {
             .map_err(|err| {
                 if err.status() == Some(StatusCode::NOT_FOUND) {
                     OroClientError::PackageNotFound(
-                        (*self.registry).clone(),
+                        without_credentials(&self.registry),
                         package_name.as_ref().to_string(),
                     )
                 } else {
diff --git a/crates/oro-client/src/error.rs b/crates/oro-client/src/error.rs
index 45373c0..aab1eda 100644
--- a/crates/oro-client/src/error.rs
+++ b/crates/oro-client/src/error.rs
@@ -85,8 +85,20 @@ pub enum OroClientError {
     Base64DecodeError(#[from] base64::DecodeError),
 }
 
+/// The given URL, without any credentials: errors get printed, and logged.
+pub(crate) fn without_credentials(url: &Url) -> Url {
+    let mut url = url.clone();
+    // (These only fail on URLs that have no credentials.)
+    let _ = url.set_username("");
+    let _ = url.set_password(None);
+    url
+}
+
 impl OroClientError {
     pub fn from_json_err(err: serde_json::Error, url: String, json: String) -> Self {
+        let url = url
+            .parse()
+            .map_or(url, |url| without_credentials(&url).to_string());
         // These json strings can get VERY LONG and miette doesn't (yet?)
         // support any "windowing" mechanism for displaying stuff, so we have
         // to manually shorten the string to only the relevant bits and
diff --git a/src/commands/login.rs b/src/commands/login.rs
index 2926c42..8a96417 100644
--- a/src/commands/login.rs
+++ b/src/commands/login.rs
@@ -79,7 +79,10 @@ impl OroCommand for LoginCmd {
                 Err(e) => return Err(e).into_diagnostic(),
             };
 
-            tracing::info!("Logging in to {}", self.registry);
+            tracing::info!(
+                "Logging in to {}",
+                crate::without_credentials(self.registry.as_str())
+            );
 
             let builder: OroClientBuilder = self.client_args.try_into()?;
 
diff --git a/src/commands/ping.rs b/src/commands/ping.rs
index 84bea30..186f022 100644
--- a/src/commands/ping.rs
+++ b/src/commands/ping.rs
@@ -30,7 +30,11 @@ impl OroCommand for PingCmd {
     async fn execute(self) -> Result<()> {
         let start = Instant::now();
         let registry = self.registry;
-        tracing::info!("{}ping: {registry}", if self.emoji { "➡️ " } else { "" });
+        tracing::info!(
+            "{}ping: {}",
+            if self.emoji { "➡️ " } else { "" },
+            crate::without_credentials(registry.as_str())
+        );
         let client_builder: OroClientBuilder = self.client_args.try_into()?;
         let client = client_builder.registry(registry.clone()).build();
         let payload = client.ping().await?;
diff --git a/src/lib.rs b/src/lib.rs
index 184f232..69a9315 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -784,13 +784,48 @@ fn log_command_line() {
     if let Some(arg) = args.next() {
         cmd.push_str(&arg);
     }
+    // The log gets kept, and can be part of crash reports: what's secret
+    // doesn't belong in it.
+    let mut secret = false;
     for arg in args {
         cmd.push(' ');
-        cmd.push_str(&arg);
+        let (name, value) = match arg.split_once('=') {
+            Some((name, value)) if name.starts_with("--") => (name, Some(value)),
+            _ => (&arg[..], None),
+        };
+        if secret {
+            cmd.push_str("[redacted]");
+            secret = false;
+        } else if !SECRET_OPTIONS.contains(&name) {
+            cmd.push_str(&without_credentials(&arg));
+        } else if value.is_some() {
+            cmd.push_str(name);
+            cmd.push_str("=[redacted]");
+        } else {
+            cmd.push_str(name);
+            secret = true;
+        }
     }
     tracing::debug!("Running command: {cmd}");
 }
 
+/// Options with credentials for values.
+const SECRET_OPTIONS: &[&str] = &["--auth", "--token", "--password", "--legacy-token"];
+
+/// Removes the credentials from URLs in `text`, for printing and logging it.
+pub(crate) fn without_credentials(text: &str) -> String {
+    let mut parts = text.split("://");
+    let mut out = parts.next().unwrap_or_default().to_string();
+    for part in parts {
+        out.push_str("://");
+        let authority = part
+            .find(['/', '?', '#', ' ', ','])
+            .map_or(part, |end| &part[..end]);
+        out.push_str(&part[authority.rfind('@').map_or(0, |at| at + 1)..]);
+    }
+    out
+}
+
 fn parse_key_value<T, U>(
     s: &str,
 ) -> Result<(T, U), Box<dyn std::error::Error + Send + Sync + 'static>>
-- 
2.43.0


From 5621c7952567783adc04bd58adde0010d3874787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:28 +0000
Subject: [PATCH 74/79] fix: don't panic when printing bad JSON that isn't
 ASCII

---
 crates/oro-client/src/error.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/oro-client/src/error.rs b/crates/oro-client/src/error.rs
index aab1eda..ee6c898 100644
--- a/crates/oro-client/src/error.rs
+++ b/crates/oro-client/src/error.rs
@@ -105,9 +105,16 @@ impl OroClientError {
         // translate the spans accordingly.
         let err_offset = SourceOffset::from_location(&json, err.line(), err.column());
         let json_len = json.len();
-        let local_offset = err_offset.offset().saturating_sub(40);
-        let local_len = std::cmp::min(40, json_len - err_offset.offset());
-        let snipped_json = json[local_offset..err_offset.offset() + local_len].to_string();
+        // (Neither end may be in the middle of a character.)
+        let mut local_offset = err_offset.offset().saturating_sub(40);
+        while !json.is_char_boundary(local_offset) {
+            local_offset -= 1;
+        }
+        let mut local_end = std::cmp::min(err_offset.offset() + 40, json_len);
+        while !json.is_char_boundary(local_end) {
+            local_end += 1;
+        }
+        let snipped_json = json[local_offset..local_end].to_string();
         Self::BadJson {
             source: err,
             url: url.clone(),
-- 
2.43.0


From 09bd5129601a79de0cc019b568d72c9e8548e875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:56 +0000
Subject: [PATCH 75/79] fix: install packages with odd package.json files

What's not valid among the name, bin, directories and scripts in a
package's own package.json is ignored, and so is a byte order mark. All
but the last of repeated fields are, too.
---
 crates/oro-common/src/build_manifest.rs | 50 ++++++++++++++++++++++---
 1 file changed, 44 insertions(+), 6 deletions(-)

diff --git a/crates/oro-common/src/build_manifest.rs b/crates/oro-common/src/build_manifest.rs
index a8d03f9..43445c9 100644
--- a/crates/oro-common/src/build_manifest.rs
+++ b/crates/oro-common/src/build_manifest.rs
@@ -4,7 +4,8 @@ use std::{
     path::{Component, Path, PathBuf},
 };
 
-use serde::{Deserialize, Serialize};
+use serde::{de::DeserializeOwned, Deserialize, Deserializer, Serialize};
+use serde_json::Value;
 use walkdir::WalkDir;
 
 use crate::{Bin, Directories, Manifest};
@@ -12,16 +13,16 @@ use crate::{Bin, Directories, Manifest};
 #[derive(Clone, Default, Debug, PartialEq, Eq, Serialize, Deserialize)]
 #[serde(rename_all = "camelCase")]
 struct RawBuildManifest {
-    #[serde(default)]
+    #[serde(default, deserialize_with = "valid_or_default")]
     pub name: Option<String>,
 
-    #[serde(default)]
+    #[serde(default, deserialize_with = "valid_bins")]
     pub bin: Option<Bin>,
 
-    #[serde(default)]
+    #[serde(default, deserialize_with = "valid_or_default")]
     pub directories: Option<Directories>,
 
-    #[serde(default)]
+    #[serde(default, deserialize_with = "valid_scripts")]
     pub scripts: HashMap<String, String>,
 }
 
@@ -46,7 +47,10 @@ impl BuildManifest {
     pub fn from_path(path: impl AsRef<Path>) -> std::io::Result<Self> {
         let path = path.as_ref();
         let pkg_str = std::fs::read_to_string(path)?;
-        let raw: RawBuildManifest = serde_json::from_str(&pkg_str)?;
+        // Published packages are what they are: byte order marks and repeated
+        // fields are nothing that'd keep them from working.
+        let pkg: Value = serde_json::from_str(pkg_str.trim_start_matches('\u{feff}'))?;
+        let raw: RawBuildManifest = serde_json::from_value(pkg)?;
         Self::normalize(raw, path.parent().unwrap_or(Path::new("")))
     }
 
@@ -150,6 +154,40 @@ impl BuildManifest {
     }
 }
 
+/// What's not valid is ignored, like NPM does.
+fn valid_or_default<'de, D, T>(deserializer: D) -> Result<T, D::Error>
+where
+    D: Deserializer<'de>,
+    T: DeserializeOwned + Default,
+{
+    let value = Value::deserialize(deserializer)?;
+    Ok(serde_json::from_value(value).unwrap_or_default())
+}
+
+fn valid_bins<'de, D>(deserializer: D) -> Result<Option<Bin>, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    let mut value = Value::deserialize(deserializer)?;
+    match &mut value {
+        Value::Object(bins) => bins.retain(|_, bin| bin.is_string()),
+        Value::Array(bins) => bins.retain(|bin| bin.is_string()),
+        _ => {}
+    }
+    Ok(serde_json::from_value(value).unwrap_or_default())
+}
+
+fn valid_scripts<'de, D>(deserializer: D) -> Result<HashMap<String, String>, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    let mut value = Value::deserialize(deserializer)?;
+    if let Value::Object(scripts) = &mut value {
+        scripts.retain(|_, script| script.is_string());
+    }
+    Ok(serde_json::from_value(value).unwrap_or_default())
+}
+
 /// Resolves a path as if the package's directory was the filesystem root, so
 /// the result is always inside of it.
 fn contained(path: &Path) -> PathBuf {
-- 
2.43.0


From d72041d0c52ac1d815a4ed7d9ebd1b56b0119895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:56 +0000
Subject: [PATCH 76/79] fix: don't panic on URLs no request can be made to

---
 crates/oro-client/src/auth_middleware.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/oro-client/src/auth_middleware.rs b/crates/oro-client/src/auth_middleware.rs
index f313dff..88cec05 100644
--- a/crates/oro-client/src/auth_middleware.rs
+++ b/crates/oro-client/src/auth_middleware.rs
@@ -5,7 +5,7 @@ use reqwest_middleware::{Middleware, Next, Result};
 use task_local_extensions::Extensions;
 use url::Url;
 
-use crate::credentials::Credentials;
+use crate::{credentials::Credentials, error::without_credentials};
 
 #[derive(Debug, Clone)]
 pub(crate) struct AuthMiddleware(pub(crate) Arc<HashMap<String, Credentials>>);
@@ -32,6 +32,19 @@ impl Middleware for AuthMiddleware {
         // This is only meant for us, not for whoever gets the request.
         req.headers_mut().remove("X-Oro-Registry");
 
+        // The HTTP client panics on hosts that are fine in URLs, but not in
+        // requests.
+        if req
+            .url()
+            .host_str()
+            .map_or(false, |host| host.contains(['"', '`', '{', '}']))
+        {
+            return Err(reqwest_middleware::Error::Middleware(anyhow::anyhow!(
+                "Invalid host in URL: {}",
+                without_credentials(req.url())
+            )));
+        }
+
         // Don't add auth headers to requests to URLs outside the given
         // registry.
         if !is_within(req.url(), &reg) {
-- 
2.43.0


From f9c3924aebd1c5c567461a7f423dbaa2f465e949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:24 +0000
Subject: [PATCH 77/79] fix: skip bins without a name in lists, too

---
 crates/oro-common/src/build_manifest.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/crates/oro-common/src/build_manifest.rs b/crates/oro-common/src/build_manifest.rs
index 43445c9..94a12ea 100644
--- a/crates/oro-common/src/build_manifest.rs
+++ b/crates/oro-common/src/build_manifest.rs
@@ -80,17 +80,11 @@ impl BuildManifest {
             }
         } else if let Some(Bin::Array(bins)) = raw.bin {
             for bin in bins {
-                let name = bin
-                    .as_path()
-                    .file_name()
-                    .ok_or_else(|| {
-                        std::io::Error::new(
-                            std::io::ErrorKind::InvalidData,
-                            format!("invalid bin name: {}", bin.to_string_lossy()),
-                        )
-                    })?
-                    .to_string_lossy()
-                    .to_string();
+                // Same as for names in objects, below.
+                let Some(name) = bin.as_path().file_name() else {
+                    continue;
+                };
+                let name = name.to_string_lossy().to_string();
                 bin_map.insert(name, bin);
             }
         } else if let Some(Directories {
-- 
2.43.0


From 488e77cfe9c273306048aedac724fe295e015d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:29 +0000
Subject: [PATCH 78/79] fix: don't panic with a concurrency of 0

---
 crates/node-maintainer/src/resolver.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/node-maintainer/src/resolver.rs b/crates/node-maintainer/src/resolver.rs
index be8952a..559a3bf 100644
--- a/crates/node-maintainer/src/resolver.rs
+++ b/crates/node-maintainer/src/resolver.rs
@@ -123,8 +123,9 @@ impl<'a> Resolver<'a> {
                     .resolve_spec(spec.clone())
                     .map_ok(move |p| (p, spec))
             })
-            .buffer_unordered(self.concurrency)
-            .ready_chunks(self.concurrency);
+            // (Neither of these can do with 0.)
+            .buffer_unordered(self.concurrency.max(1))
+            .ready_chunks(self.concurrency.max(1));
 
         // Start iterating over the queue. We'll be adding things to it as we find them.
         while !q.is_empty() || in_flight != 0 {
-- 
2.43.0


From 557328eea9829a1b9b320dc58645e4ec4d220f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:21 +0000
Subject: [PATCH 79/79] fix: don't panic when no debug log can be written

---
 src/lib.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 69a9315..8d042de 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -339,6 +339,12 @@ impl Orogene {
             filter
         };
 
+        // No log is nothing to fail for (and what writes it would panic).
+        let log_file = log_file.filter(|file| {
+            clean_old_logs(file.parent().expect("must have parent"));
+            is_writable(file)
+        });
+
         let ilayer = IndicatifLayer::new();
         let builder = tracing_subscriber::registry();
 
@@ -355,7 +361,6 @@ impl Orogene {
                 .with_default(LevelFilter::TRACE);
 
             let logs_dir = log_file.parent().expect("must have parent");
-            clean_old_logs(logs_dir);
 
             let file_appender = tracing_appender::rolling::never(
                 logs_dir,
@@ -662,6 +667,7 @@ impl Orogene {
             .or_else(|| config.get::<String>("cache").ok().map(PathBuf::from))
             .map(|c| c.join("_logs").join(log_file_name()));
         let _logging_guard = oro.setup_logging(log_file.as_deref())?;
+        let log_file = log_file.filter(|_| _logging_guard.is_some());
         oro.first_time_setup()?;
         // (The config may have an answer in it now that it didn't before.)
         oro.telemetry = is_opted_in(&matches, &oro.build_config(&matches)?);
@@ -754,6 +760,17 @@ fn pkg_root(start_dir: &Path) -> Option<&Path> {
     None
 }
 
+/// Whether a file can be written to, which it's created for.
+fn is_writable(path: &Path) -> bool {
+    path.parent()
+        .map_or(true, |dir| std::fs::create_dir_all(dir).is_ok())
+        && std::fs::OpenOptions::new()
+            .append(true)
+            .create(true)
+            .open(path)
+            .is_ok()
+}
+
 fn log_file_name() -> PathBuf {
     let now = chrono::Local::now();
     let prefix = format!("oro-debug-{}", now.format("%Y-%m-%d-%H-%M-%S%.3f"));
-- 
2.43.0

