use std::num::NonZeroUsize;
use std::path::Path;
use std::sync::Arc;

use ecow::EcoString;
use tinymist_std::error::prelude::*;
use tinymist_std::ImmutPath;
use tinymist_vfs::system::SystemAccessModel;
use tinymist_vfs::{ImmutDict, Vfs};
use typst::diag::PackageError;
use typst::Features;

use crate::args::{CompileFontArgs, CompilePackageArgs};
use crate::font::FontResolverImpl;
use crate::package::{PackageRegistry, PackageSpec, RegistryPathMapper};
use crate::EntryState;

/// Finds packages in directories, by name.
#[derive(Debug, Default)]
pub struct HttpRegistry {
    pub package_path: Option<ImmutPath>,
    pub package_cache_path: Option<ImmutPath>,
    pub revision: Option<NonZeroUsize>,
}
impl HttpRegistry {
    pub fn new(_cert: Option<ImmutPath>, package_path: Option<ImmutPath>, package_cache_path: Option<ImmutPath>) -> Self {
        Self { package_path, package_cache_path, revision: None }
    }
    pub fn package_path(&self) -> Option<&ImmutPath> {
        self.package_path.as_ref()
    }
    pub fn package_cache_path(&self) -> Option<&ImmutPath> {
        self.package_cache_path.as_ref()
    }
}
impl PackageRegistry for HttpRegistry {
    fn revision(&self) -> Option<NonZeroUsize> {
        self.revision
    }
    fn resolve(&self, spec: &PackageSpec) -> std::result::Result<Arc<Path>, PackageError> {
        let root = self.package_path.as_deref().unwrap_or(Path::new("/pkgs"));
        Ok(root.join(spec.name.as_str()).as_path().into())
    }
    fn packages(&self) -> &[(PackageSpec, Option<EcoString>)] {
        &[]
    }
}

#[derive(Debug, Clone, Copy)]
pub struct SystemCompilerFeat;
impl crate::CompilerFeat for SystemCompilerFeat {
    type FontResolver = FontResolverImpl;
    type AccessModel = SystemAccessModel;
    type Registry = HttpRegistry;
}
pub type TypstSystemUniverse = crate::world::CompilerUniverse<SystemCompilerFeat>;
pub type TypstSystemWorld = crate::world::CompilerWorld<SystemCompilerFeat>;

pub struct SystemUniverseBuilder;
impl SystemUniverseBuilder {
    pub fn build(
        entry: EntryState,
        inputs: ImmutDict,
        font_resolver: Arc<FontResolverImpl>,
        package_registry: HttpRegistry,
    ) -> TypstSystemUniverse {
        let registry = Arc::new(package_registry);
        let resolver = Arc::new(RegistryPathMapper::new(registry.clone()));
        TypstSystemUniverse::new_raw(
            entry,
            Features::default(),
            Some(inputs),
            Vfs::new(resolver, SystemAccessModel {}),
            registry,
            font_resolver,
        )
    }
    /// No fonts.
    pub fn resolve_fonts(args: CompileFontArgs) -> Result<FontResolverImpl> {
        Ok(FontResolverImpl::new(args.font_paths, Default::default(), vec![]))
    }
    pub fn resolve_package(_: Option<ImmutPath>, args: Option<&CompilePackageArgs>) -> HttpRegistry {
        HttpRegistry::new(None, args.and_then(|a| Some(a.package_path.clone()?.into())), args.and_then(|a| Some(a.package_cache_path.clone()?.into())))
    }
    /// A universe without inputs, fonts or packages.
    pub fn plain(entry: EntryState) -> TypstSystemUniverse {
        Self::build(entry, Default::default(), Arc::new(FontResolverImpl::new(vec![], Default::default(), vec![])), HttpRegistry::default())
    }
}
/// Prints nothing.
pub fn print_diagnostics<'d, 'files>(
    _: &'files dyn crate::SourceWorld,
    _: impl Iterator<Item = &'d typst::diag::SourceDiagnostic>,
    _: crate::DiagnosticFormat,
) -> Result<()> {
    Ok(())
}
