CMakeGeneratorOptions NativeToolchain = {
    "Unix Makefiles",
    "",
    "",
    "",
};
String DefaultNativeConfig = "Debug";
