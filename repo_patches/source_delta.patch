From 3cf8cb85cb4cd83303da18befda8f0c97a80f636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:39 +0000
Subject: [PATCH 01/14] fix: report errors when the buffered symbol file is
 flushed

The BufWriter was dropped without being flushed, so an error while
writing out its buffer was ignored and cbindgen exited successfully with
an incomplete symbol file.
---
 src/bindgen/bindings.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bindgen/bindings.rs b/src/bindgen/bindings.rs
index dbd0b7d..a47dd4c 100644
--- a/src/bindgen/bindings.rs
+++ b/src/bindgen/bindings.rs
@@ -193,6 +193,7 @@ impl Bindings {
             writeln!(&mut writer, "{symbol};").expect("writing symbol failed");
         }
         write!(&mut writer, "}};").expect("writing symbol file footer failed");
+        writer.flush().expect("flushing symbol file failed");
     }
 
     pub fn generate_depfile<P: AsRef<path::Path>>(&self, header_path: P, depfile_path: P) {
-- 
2.43.0


From 5222138042dfa3d4a66acd913c149c010746eb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:39 +0000
Subject: [PATCH 02/14] fix: flush the writer after writing bindings

Bytes still buffered by the writer (stdout is line buffered, so with CR
line endings that is the tail of the header) were only flushed when it
was dropped, where errors are ignored: cbindgen exited successfully with
incomplete output.
---
 src/bindgen/bindings.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bindgen/bindings.rs b/src/bindgen/bindings.rs
index a47dd4c..541eeec 100644
--- a/src/bindgen/bindings.rs
+++ b/src/bindgen/bindings.rs
@@ -269,15 +269,17 @@ impl Bindings {
         }
     }
 
-    pub fn write<F: Write>(&self, file: F) {
+    pub fn write<F: Write>(&self, mut file: F) {
         match self.config.language {
             Language::Cxx | Language::C => {
-                self.write_with_backend(file, &mut CLikeLanguageBackend::new(&self.config))
+                self.write_with_backend(&mut file, &mut CLikeLanguageBackend::new(&self.config))
             }
             Language::Cython => {
-                self.write_with_backend(file, &mut CythonLanguageBackend::new(&self.config))
+                self.write_with_backend(&mut file, &mut CythonLanguageBackend::new(&self.config))
             }
         }
+        // The writer may be buffered (e.g. stdout), make sure that everything reached it.
+        file.flush().unwrap();
     }
 
     fn write_with_backend<F: Write, LB: LanguageBackend>(
-- 
2.43.0


From 78aa02702d64b7bed1f1b39d3493745eef885c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:19 +0000
Subject: [PATCH 03/14] fix: don't write depfiles and symbol files from a
 recursive run

Bindings generated by a recursive call to cbindgen shouldn't do anything
when written anywhere, but generate_symfile overwrote the symbol file
with an empty list, and generate_depfile overwrote the depfile or
panicked when the header didn't exist yet, failing the build script that
is being run for the expansion.
---
 src/bindgen/bindings.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bindgen/bindings.rs b/src/bindgen/bindings.rs
index 541eeec..baec2d4 100644
--- a/src/bindgen/bindings.rs
+++ b/src/bindgen/bindings.rs
@@ -184,6 +184,10 @@ impl Bindings {
     }
 
     pub fn generate_symfile<P: AsRef<path::Path>>(&self, symfile_path: P) {
+        if self.noop {
+            return;
+        }
+
         if let Some(dir) = symfile_path.as_ref().parent() {
             std::fs::create_dir_all(dir).unwrap();
         }
@@ -197,6 +201,10 @@ impl Bindings {
     }
 
     pub fn generate_depfile<P: AsRef<path::Path>>(&self, header_path: P, depfile_path: P) {
+        if self.noop {
+            return;
+        }
+
         if let Some(dir) = depfile_path.as_ref().parent() {
             if !dir.exists() {
                 std::fs::create_dir_all(dir).unwrap()
-- 
2.43.0


From 149c49e6521a4da198043748d02e5bfd80fabc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:19 +0000
Subject: [PATCH 04/14] fix: keep the temporary expansion directory while cargo
 runs

`_temp_dir.unwrap()` moved the guard into a temporary which was dropped
at the end of the statement: the private directory was deleted before
cargo started, cargo recreated it under a name no longer reserved for
it, and nobody removed it afterwards.
---
 src/bindgen/cargo/cargo_expand.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bindgen/cargo/cargo_expand.rs b/src/bindgen/cargo/cargo_expand.rs
index ed46a58..d843da3 100644
--- a/src/bindgen/cargo/cargo_expand.rs
+++ b/src/bindgen/cargo/cargo_expand.rs
@@ -80,7 +80,7 @@ pub fn expand(
     let mut _temp_dir = None; // drop guard
     if use_tempdir {
         _temp_dir = Some(Builder::new().prefix("cbindgen-expand").tempdir()?);
-        set_target_dir(&mut cmd, _temp_dir.unwrap().path());
+        set_target_dir(&mut cmd, _temp_dir.as_ref().unwrap().path());
     } else if let Ok(ref path) = env::var("CARGO_EXPAND_TARGET_DIR") {
         set_target_dir(&mut cmd, Path::new(path));
     } else if let Ok(ref path) = env::var("OUT_DIR") {
-- 
2.43.0


From 449556b16c0b656c125ef42fe959832e61efd8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:19 +0000
Subject: [PATCH 05/14] fix: warn when the macro expansion command fails

The exit status of `cargo rustc -Zunpretty=expanded` was ignored as long
as it had printed something, so a compiler that was killed or failed half
way through silently produced incomplete bindings.
---
 src/bindgen/cargo/cargo_expand.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bindgen/cargo/cargo_expand.rs b/src/bindgen/cargo/cargo_expand.rs
index d843da3..65af95f 100644
--- a/src/bindgen/cargo/cargo_expand.rs
+++ b/src/bindgen/cargo/cargo_expand.rs
@@ -145,6 +145,14 @@ pub fn expand(
     if src.is_empty() {
         Err(Error::Compile(error))
     } else {
+        if !output.status.success() {
+            // rustc may print a usable expansion and fail later on, but the result
+            // may also be incomplete.
+            warn!(
+                "Expanding {crate_name} failed ({}), bindings may be incomplete:\n{error}",
+                output.status
+            );
+        }
         Ok(src)
     }
 }
-- 
2.43.0


From cd8ceccb70f029c5c24617aca437fb3dc1696f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:19 +0000
Subject: [PATCH 06/14] fix: don't ignore a configuration file that cannot be
 accessed

`Path::exists` returns false on any error, so an existing cbindgen.toml
in a directory that can't be searched or on a failing disk was silently
replaced by the default configuration.
---
 src/bindgen/config.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bindgen/config.rs b/src/bindgen/config.rs
index e92b654..8d5bd1a 100644
--- a/src/bindgen/config.rs
+++ b/src/bindgen/config.rs
@@ -1126,10 +1126,10 @@ impl Config {
     pub fn from_root_or_default<P: AsRef<StdPath>>(root: P) -> Config {
         let c = root.as_ref().join("cbindgen.toml");
 
-        if c.exists() {
-            Config::from_file(c).unwrap()
-        } else {
-            Config::default()
+        // If we can't tell whether it exists, let from_file() report the reason.
+        match c.try_exists() {
+            Ok(false) => Config::default(),
+            _ => Config::from_file(c).unwrap(),
         }
     }
 }
-- 
2.43.0


From 3214e2c4f97d6e9afdda56d689e9d4b2348a89c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:19 +0000
Subject: [PATCH 07/14] fix: choose a define deterministically when several
 keys match

Keys such as `target_os = linux` and `target_os=linux` denote the same
condition; which of their values was used depended on the iteration order
of a HashMap, i.e. changed from run to run.
---
 src/bindgen/ir/cfg.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/bindgen/ir/cfg.rs b/src/bindgen/ir/cfg.rs
index 9bf632c..c330c14 100644
--- a/src/bindgen/ir/cfg.rs
+++ b/src/bindgen/ir/cfg.rs
@@ -192,6 +192,17 @@ impl Cfg {
     }
 }
 
+/// Finds the `[defines]` entry for a key. Several spellings may denote the same key, so pick
+/// one that doesn't depend on the iteration order of the map.
+fn find_define<'a>(config: &'a Config, wanted: DefineKey) -> Option<&'a String> {
+    config
+        .defines
+        .iter()
+        .filter(|(key, ..)| wanted == DefineKey::load(key))
+        .min_by_key(|(key, ..)| *key)
+        .map(|(_, define)| define)
+}
+
 pub trait ToCondition: Sized {
     fn to_condition(&self, config: &Config) -> Option<Condition>;
 }
@@ -206,11 +217,8 @@ impl ToCondition for Cfg {
     fn to_condition(&self, config: &Config) -> Option<Condition> {
         match *self {
             Cfg::Boolean(ref cfg_name) => {
-                let define = config
-                    .defines
-                    .iter()
-                    .find(|(key, ..)| DefineKey::Boolean(cfg_name) == DefineKey::load(key));
-                if let Some((_, define)) = define {
+                let define = find_define(config, DefineKey::Boolean(cfg_name));
+                if let Some(define) = define {
                     Some(Condition::Define(define.to_owned()))
                 } else {
                     warn!("Missing `[defines]` entry for `{self}` in cbindgen config.",);
@@ -218,10 +226,8 @@ impl ToCondition for Cfg {
                 }
             }
             Cfg::Named(ref cfg_name, ref cfg_value) => {
-                let define = config.defines.iter().find(|(key, ..)| {
-                    DefineKey::Named(cfg_name, cfg_value) == DefineKey::load(key)
-                });
-                if let Some((_, define)) = define {
+                let define = find_define(config, DefineKey::Named(cfg_name, cfg_value));
+                if let Some(define) = define {
                     Some(Condition::Define(define.to_owned()))
                 } else {
                     warn!("Missing `[defines]` entry for `{self}` in cbindgen config.",);
-- 
2.43.0


From fe42072965d39a8b39e2fffbc753e1b5a7cf8ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:19 +0000
Subject: [PATCH 08/14] fix: keep the fields of struct literals in source order

They were iterated in HashMap order to collect the types a constant
depends on and to unwrap literals of transparent structs, so both the
order of declarations and the value of such constants could change from
run to run.
---
 src/bindgen/ir/constant.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bindgen/ir/constant.rs b/src/bindgen/ir/constant.rs
index f96b2da..80e138f 100644
--- a/src/bindgen/ir/constant.rs
+++ b/src/bindgen/ir/constant.rs
@@ -3,9 +3,9 @@
  * file, You can obtain one at http://mozilla.org/MPL/2.0/. */
 
 use std::borrow::Cow;
-use std::collections::HashMap;
 use std::io::Write;
 
+use indexmap::IndexMap;
 use syn::ext::IdentExt;
 use syn::UnOp;
 
@@ -108,7 +108,7 @@ pub enum Literal {
     Struct {
         path: Path,
         export_name: String,
-        fields: HashMap<String, LiteralStructField>,
+        fields: IndexMap<String, LiteralStructField>,
     },
     Cast {
         ty: Type,
@@ -437,7 +437,7 @@ impl Literal {
                     } => name,
                     _ => return Err(format!("Unsupported call expression. {:?}", *expr)),
                 };
-                let mut fields = HashMap::<String, LiteralStructField>::default();
+                let mut fields = IndexMap::<String, LiteralStructField>::default();
                 for (index, arg) in args.iter().enumerate() {
                     let ident =
                         member_to_ident(&syn::Member::Unnamed(syn::Index::from(index))).to_string();
@@ -458,7 +458,7 @@ impl Literal {
                 ..
             }) => {
                 let struct_name = path.segments[0].ident.unraw().to_string();
-                let mut field_map = HashMap::<String, LiteralStructField>::default();
+                let mut field_map = IndexMap::<String, LiteralStructField>::default();
                 for field in fields {
                     let ident = member_to_ident(&field.member).to_string();
                     let cfg = Cfg::load(&field.attrs);
-- 
2.43.0


From f8e67c66c1528107ef154e6239bd00287512bff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:13 +0000
Subject: [PATCH 09/14] fix: find the binding crate however its directory is
 spelled

The manifest path given by the user was compared textually with the
absolute one reported by cargo, so with a relative path or a symbolic
link a dependency of the same name could be chosen instead - at random,
as the candidates come from a HashSet.
---
 src/bindgen/cargo/cargo.rs          | 20 +++++++++++++++-----
 src/bindgen/cargo/cargo_metadata.rs |  3 ++-
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/bindgen/cargo/cargo.rs b/src/bindgen/cargo/cargo.rs
index c8f820c..3762b65 100644
--- a/src/bindgen/cargo/cargo.rs
+++ b/src/bindgen/cargo/cargo.rs
@@ -187,21 +187,31 @@ impl Cargo {
         // Keep a list of candidates in case the manifest check fails, so that the old behavior
         // still applies, returning the first package that was found
         let mut candidates = vec![];
+        // Cargo reports absolute paths, while ours is spelled the way the user gave it.
+        let canonical_manifest_path = self.manifest_path.canonicalize().ok();
         for package in &self.metadata.packages {
             if package.name_and_version.name == package_name {
                 // If we are sure it is the right package return it
-                if Path::new(package.manifest_path.as_str()) == self.manifest_path {
+                let package_manifest_path = Path::new(package.manifest_path.as_str());
+                if package_manifest_path == self.manifest_path
+                    || canonical_manifest_path.is_some()
+                        && package_manifest_path.canonicalize().ok() == canonical_manifest_path
+                {
                     return Some(package.name_and_version.clone());
                 }
                 // Otherwise note that a package was found
-                candidates.push(package.name_and_version.clone());
+                candidates.push(package);
             }
         }
 
-        // If we could not verify the manifest path but we found candidates return the first one if
+        // If we could not verify the manifest path but we found candidates return one of them, if
         // any, this is the old behavior which did not check for manifest path, kept for backwards
-        // compatibility
-        candidates.into_iter().next()
+        // compatibility. The packages are in no particular order, so prefer local ones and break
+        // ties explicitly.
+        candidates
+            .into_iter()
+            .min_by_key(|package| (package.source.is_some(), &package.name_and_version.version))
+            .map(|package| package.name_and_version.clone())
     }
 
     /// Finds the directory for a specified package reference.
diff --git a/src/bindgen/cargo/cargo_metadata.rs b/src/bindgen/cargo/cargo_metadata.rs
index 37d613b..f114bb3 100644
--- a/src/bindgen/cargo/cargo_metadata.rs
+++ b/src/bindgen/cargo/cargo_metadata.rs
@@ -44,7 +44,8 @@ pub struct Package {
     #[serde(flatten)]
     pub name_and_version: PackageRef,
     id: String,
-    source: Option<String>,
+    /// Where the package comes from, `None` for local packages
+    pub source: Option<String>,
     /// List of dependencies of this particular package
     pub dependencies: HashSet<Dependency>,
     /// Targets provided by the crate (lib, bin, example, test, ...)
-- 
2.43.0


From 4b428440599ee3f6c6ea6bb11ab53088ff73af50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:13 +0000
Subject: [PATCH 10/14] fix: prefer the local package over a dependency of the
 same name and version

Packages are stored in a set keyed by name and version. When a dependency
from another source shared both with the binding crate, whichever cargo
listed first was used for either.
---
 src/bindgen/cargo/cargo.rs          | 24 +++++++++++++-----------
 src/bindgen/cargo/cargo_lock.rs     |  2 ++
 src/bindgen/cargo/cargo_metadata.rs | 12 ++++++++++++
 3 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/bindgen/cargo/cargo.rs b/src/bindgen/cargo/cargo.rs
index 3762b65..b95c9c9 100644
--- a/src/bindgen/cargo/cargo.rs
+++ b/src/bindgen/cargo/cargo.rs
@@ -119,17 +119,19 @@ impl Cargo {
         }
         if dependencies.is_none() {
             if let Some(ref lock_packages) = lock.package {
-                for lock_package in lock_packages {
-                    if lock_package.name == package.name
-                        && package
-                            .version
-                            .as_ref()
-                            .map_or(true, |v| *v == lock_package.version)
-                    {
-                        dependencies = lock_package.dependencies.as_ref();
-                        break;
-                    }
-                }
+                // As in the metadata, prefer a local package over others of the same name and
+                // version.
+                dependencies = lock_packages
+                    .iter()
+                    .filter(|lock_package| {
+                        lock_package.name == package.name
+                            && package
+                                .version
+                                .as_ref()
+                                .map_or(true, |v| *v == lock_package.version)
+                    })
+                    .min_by_key(|lock_package| &lock_package.source)
+                    .and_then(|lock_package| lock_package.dependencies.as_ref());
             }
         }
         if dependencies.is_none() {
diff --git a/src/bindgen/cargo/cargo_lock.rs b/src/bindgen/cargo/cargo_lock.rs
index a770ede..7cd4ba9 100644
--- a/src/bindgen/cargo/cargo_lock.rs
+++ b/src/bindgen/cargo/cargo_lock.rs
@@ -39,6 +39,8 @@ pub struct Lock {
 pub struct Package {
     pub name: String,
     pub version: String,
+    /// Where the package comes from, `None` for local packages
+    pub source: Option<String>,
     /// A list of dependencies formatted like "NAME VERSION-OPT REGISTRY-OPT"
     pub dependencies: Option<Vec<String>>,
 }
diff --git a/src/bindgen/cargo/cargo_metadata.rs b/src/bindgen/cargo/cargo_metadata.rs
index f114bb3..bd0660a 100644
--- a/src/bindgen/cargo/cargo_metadata.rs
+++ b/src/bindgen/cargo/cargo_metadata.rs
@@ -25,6 +25,7 @@ use std::str::Utf8Error;
 /// Starting point for metadata returned by `cargo metadata`
 pub struct Metadata {
     /// A list of all crates referenced by this crate (and the crate itself)
+    #[serde(deserialize_with = "deserialize_packages")]
     pub packages: HashSet<Package>,
     version: usize,
     /// path to the workspace containing the `Cargo.lock`
@@ -158,6 +159,17 @@ impl PartialEq for Package {
 
 impl Eq for Package {}
 
+/// Packages are looked up by name and version, which packages from different sources may share.
+/// Prefer local packages in that case, whatever the order in which cargo lists them.
+fn deserialize_packages<'de, D>(deserializer: D) -> Result<HashSet<Package>, D::Error>
+where
+    D: serde::Deserializer<'de>,
+{
+    let mut packages: Vec<Package> = serde::Deserialize::deserialize(deserializer)?;
+    packages.sort_by(|a, b| a.source.cmp(&b.source));
+    Ok(packages.into_iter().collect())
+}
+
 impl Borrow<str> for Dependency {
     fn borrow(&self) -> &str {
         &self.name
-- 
2.43.0


From 988c9c740f915994a1edde1e73a859911eec8e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:13 +0000
Subject: [PATCH 11/14] fix: honour `parse.clean` when run from the command
 line

Only the --clean flag was looked at, a `clean = true` in cbindgen.toml
had no effect unless cbindgen was used as a library.
---
 src/bindgen/cargo/cargo.rs | 3 ++-
 src/bindgen/parser.rs      | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bindgen/cargo/cargo.rs b/src/bindgen/cargo/cargo.rs
index b95c9c9..e3b659e 100644
--- a/src/bindgen/cargo/cargo.rs
+++ b/src/bindgen/cargo/cargo.rs
@@ -258,6 +258,7 @@ impl Cargo {
     pub(crate) fn expand_crate(
         &self,
         package: &PackageRef,
+        clean: bool,
         expand_all_features: bool,
         expand_default_features: bool,
         expand_features: &Option<Vec<String>>,
@@ -267,7 +268,7 @@ impl Cargo {
             &self.manifest_path,
             &package.name,
             package.version.as_deref(),
-            self.clean,
+            self.clean || clean,
             expand_all_features,
             expand_default_features,
             expand_features,
diff --git a/src/bindgen/parser.rs b/src/bindgen/parser.rs
index 7f004d1..aa20d7c 100644
--- a/src/bindgen/parser.rs
+++ b/src/bindgen/parser.rs
@@ -204,6 +204,7 @@ impl Parser<'_> {
                     .unwrap()
                     .expand_crate(
                         pkg,
+                        self.config.parse.clean,
                         self.config.parse.expand.all_features,
                         self.config.parse.expand.default_features,
                         &self.config.parse.expand.features,
-- 
2.43.0


From 48bc1be8ffc765d8ba1a0173e21d28ed8ba624ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:29 +0000
Subject: [PATCH 12/14] fix: read each source file once however its path is
 spelled

A file reached through differently spelled module paths was read again for each
spelling, so bindings could mix two versions of a file replaced meanwhile.
---
 src/bindgen/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bindgen/parser.rs b/src/bindgen/parser.rs
index aa20d7c..144905f 100644
--- a/src/bindgen/parser.rs
+++ b/src/bindgen/parser.rs
@@ -234,7 +234,12 @@ impl Parser<'_> {
         mod_path: &FilePath,
         depth: usize,
     ) -> Result<(), Error> {
-        let mod_items = match self.cache_src.entry(mod_path.to_path_buf()) {
+        // The same file may be reached through differently spelled paths, but must only be
+        // read once: it may change in between.
+        let cache_key = mod_path
+            .canonicalize()
+            .unwrap_or_else(|_| mod_path.to_path_buf());
+        let mod_items = match self.cache_src.entry(cache_key) {
             Entry::Vacant(vacant_entry) => {
                 let mut s = String::new();
                 let mut f = File::open(mod_path).map_err(|_| Error::ParseCannotOpenFile {
-- 
2.43.0


From 64b72c0d59a38b183e24b8d5f2d16331d9fe5ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:44 +0000
Subject: [PATCH 13/14] fix: read each source file once for all inputs of the
 same bindings

A file that several sources (or a source and a crate) share was read once for each of them, so
bindings could contain two versions of a file that was replaced in the meantime.
---
 src/bindgen/builder.rs |  9 ++++++---
 src/bindgen/parser.rs  | 19 ++++++++++++-------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/bindgen/builder.rs b/src/bindgen/builder.rs
index 74aeef1..9f200ca 100644
--- a/src/bindgen/builder.rs
+++ b/src/bindgen/builder.rs
@@ -377,8 +377,10 @@ impl Builder {
             result.add_std_types();
         }
 
+        let mut cache_src = parser::SourceCache::new();
+
         for x in &self.srcs {
-            result.extend_with(&parser::parse_src(x, &self.config)?);
+            result.extend_with(&parser::parse_src(x, &self.config, &mut cache_src)?);
         }
 
         if let Some((lib_dir, binding_lib_name)) = self.lib.clone() {
@@ -394,11 +396,12 @@ impl Builder {
                 /* existing_metadata = */ None,
             )?;
 
-            result.extend_with(&parser::parse_lib(cargo, &self.config)?);
+            result.extend_with(&parser::parse_lib(cargo, &self.config, &mut cache_src)?);
         } else if let Some(cargo) = self.lib_cargo.clone() {
-            result.extend_with(&parser::parse_lib(cargo, &self.config)?);
+            result.extend_with(&parser::parse_lib(cargo, &self.config, &mut cache_src)?);
         }
 
+        result.source_files.extend(cache_src.into_keys());
         result.source_files.extend_from_slice(self.srcs.as_slice());
 
         Library::new(
diff --git a/src/bindgen/parser.rs b/src/bindgen/parser.rs
index 144905f..a877b2f 100644
--- a/src/bindgen/parser.rs
+++ b/src/bindgen/parser.rs
@@ -6,6 +6,7 @@ use std::collections::hash_map::Entry;
 use std::collections::{HashMap, HashSet};
 use std::fs::File;
 use std::io::Read;
+use std::mem;
 use std::path::{Path as FilePath, PathBuf as FilePathBuf};
 
 use syn::ext::IdentExt;
@@ -31,8 +32,12 @@ const STD_CRATES: &[&str] = &[
 
 type ParseResult = Result<Parse, Error>;
 
+/// The items of the source files read so far. It is shared by everything that is parsed for the
+/// same bindings, so that each file is only read once.
+pub type SourceCache = HashMap<FilePathBuf, Vec<syn::Item>>;
+
 /// Parses a single rust source file, not following `mod` or `extern crate`.
-pub fn parse_src(src_file: &FilePath, config: &Config) -> ParseResult {
+pub fn parse_src(src_file: &FilePath, config: &Config, cache_src: &mut SourceCache) -> ParseResult {
     let mod_name = src_file.file_stem().unwrap().to_str().unwrap();
     let mut config = config.clone();
     config.parse = ParseConfig {
@@ -45,7 +50,7 @@ pub fn parse_src(src_file: &FilePath, config: &Config) -> ParseResult {
         config: &config,
         lib: None,
         parsed_crates: HashSet::new(),
-        cache_src: HashMap::new(),
+        cache_src: mem::take(cache_src),
         cache_expanded_crate: HashMap::new(),
         cfg_stack: Vec::new(),
         out: Parse::new(),
@@ -57,7 +62,7 @@ pub fn parse_src(src_file: &FilePath, config: &Config) -> ParseResult {
     };
 
     context.parse_mod(&pkg_ref, src_file, 0)?;
-    context.out.source_files = context.cache_src.keys().map(|k| k.to_owned()).collect();
+    *cache_src = context.cache_src;
     Ok(context.out)
 }
 
@@ -66,13 +71,13 @@ pub fn parse_src(src_file: &FilePath, config: &Config) -> ParseResult {
 /// Inside a crate, `mod` and `extern crate` declarations are followed
 /// and parsed. To find an external crate, the parser uses the `cargo metadata`
 /// command to find the location of dependencies.
-pub(crate) fn parse_lib(lib: Cargo, config: &Config) -> ParseResult {
+pub(crate) fn parse_lib(lib: Cargo, config: &Config, cache_src: &mut SourceCache) -> ParseResult {
     let mut context = Parser {
         binding_crate_name: lib.binding_crate_name().to_owned(),
         config,
         lib: Some(lib),
         parsed_crates: HashSet::new(),
-        cache_src: HashMap::new(),
+        cache_src: mem::take(cache_src),
         cache_expanded_crate: HashMap::new(),
         cfg_stack: Vec::new(),
         out: Parse::new(),
@@ -80,7 +85,6 @@ pub(crate) fn parse_lib(lib: Cargo, config: &Config) -> ParseResult {
 
     let binding_crate = context.lib.as_ref().unwrap().binding_crate_ref();
     context.parse_crate(&binding_crate)?;
-    context.out.source_files = context.cache_src.keys().map(|k| k.to_owned()).collect();
     context.out.package_version = context
         .lib
         .as_ref()
@@ -88,6 +92,7 @@ pub(crate) fn parse_lib(lib: Cargo, config: &Config) -> ParseResult {
         .binding_crate_ref()
         .version
         .unwrap();
+    *cache_src = context.cache_src;
     Ok(context.out)
 }
 
@@ -98,7 +103,7 @@ struct Parser<'a> {
     config: &'a Config,
 
     parsed_crates: HashSet<String>,
-    cache_src: HashMap<FilePathBuf, Vec<syn::Item>>,
+    cache_src: SourceCache,
     cache_expanded_crate: HashMap<String, Vec<syn::Item>>,
 
     cfg_stack: Vec<Cfg>,
-- 
2.43.0


From 619a945e523fdb60a3b7de4b3aa23122995b3b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:45 +0000
Subject: [PATCH 14/14] fix: report that --verify needs --output

The error was logged before a logger was set, so the program exited with
status 2 without saying anything.
---
 src/main.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index e0c9cbd..6ff1bf9 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -311,13 +311,6 @@ fn main() {
         )
         .get_matches();
 
-    if matches.get_flag("verify") && !matches.contains_id("out") {
-        error!(
-            "Cannot verify bindings against `stdout`, please specify a file to compare against."
-        );
-        std::process::exit(2);
-    }
-
     // Initialize logging
     if matches.get_flag("quiet") {
         logging::ErrorLogger::init().unwrap();
@@ -329,6 +322,13 @@ fn main() {
         }
     }
 
+    if matches.get_flag("verify") && !matches.contains_id("out") {
+        error!(
+            "Cannot verify bindings against `stdout`, please specify a file to compare against."
+        );
+        std::process::exit(2);
+    }
+
     // Find the input directory
     let input: PathBuf = matches
         .get_one("INPUT")
-- 
2.43.0

