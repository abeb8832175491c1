//! Minimal stand-in for vergen: constant build information.
pub struct EmitBuilder;
impl EmitBuilder {
    pub fn builder() -> Self {
        EmitBuilder
    }
    pub fn all_build(&mut self) -> &mut Self {
        self
    }
    pub fn all_cargo(&mut self) -> &mut Self {
        self
    }
    pub fn all_git(&mut self) -> &mut Self {
        self
    }
    pub fn emit(&self) -> Result<(), Box<dyn std::error::Error>> {
        for k in [
            "VERGEN_BUILD_TIMESTAMP",
            "VERGEN_CARGO_FEATURES",
            "VERGEN_CARGO_OPT_LEVEL",
            "VERGEN_CARGO_TARGET_TRIPLE",
            "VERGEN_GIT_COMMIT_MESSAGE",
            "VERGEN_GIT_COMMIT_TIMESTAMP",
            "VERGEN_GIT_BRANCH",
            "VERGEN_GIT_SHA",
        ] {
            println!("cargo:rustc-env={k}=unknown");
        }
        // No rerun-if lines: cargo would otherwise watch every file.
        println!("cargo:rerun-if-changed=build.rs");
        Ok(())
    }
}
