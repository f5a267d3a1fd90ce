//go:build go1.21

package verifspec

// ---- the command line ----

// settingsByVariable are the documented environment variables and the setting
// that each sets.
//
// @ prop C21
func settingsByVariable() map[string]string {
	return map[string]string{
		"YOT_CONFIG_FILE":               "configFile",
		"YOT_DEFAULT_ON_MISSING_ACTION": "defaultOnMissingAction",
		"YOT_INDENT_LEVEL":              "indentLevel",
		"YOT_LOG_LEVEL":                 "logLevel",
		"YOT_OUTPUT_DIRECTORY":          "outputDirectory",
		"YOT_OUTPUT_STYLE":              "outputStyle",
		"YOT_REMOVE_COMMENTS":           "removeComments",
		"YOT_STDOUT":                    "stdout",
	}
}

// @ contract commands.envMap
// @ prop C21
func envMapPost(m map[string]string) bool { return Eq(m, settingsByVariable()) }

type Root_ struct {
	configFile string
	Options    Ref
	Command    Ref
}

// @ contract commands.Root.Execute
// @ noterm
// @ sets
// @ world
// @ prop C17
func rootExecutePost(w World, h Heap[Overlay_], hd Heap[Document_], hq Heap[DocumentQuery_], hc Heap[Condition_], hf Heap[Config_], hi Heap[Instructions_], hy Heap[YamlFile_], hs Heap[WorkStream_], hr Heap[Root_], r, cmd Ref, args []string, err error, w1 World, hf1 Heap[Config_], hi1 Heap[Instructions_], hy1 Heap[YamlFile_], hs1 Heap[WorkStream_]) bool {
	g := gotten(w, hy, hf[hr[r].Options], OverlayOf(hr[r].Options))
	x := ran(finished(g.W, g.H, g.I), h, hd, hq, hc)
	return Iff(err != nil, g.E || x.E) && Implies(err == nil, Eq(w1, x.W))
}

// Commanded is what the command line makes of the world.
//
// @ effect (*github.com/spf13/cobra.Command).Execute
func Commanded(w World, c Ref) World { unspecified(); return w }

// @ result (*github.com/spf13/cobra.Command).Execute 0
func CommandErr(w World, c Ref) error { unspecified(); return nil }

// @ effect os.Exit
func Exited(w World, status int) World { unspecified(); return w }

// exitStatus is the status the tool exited with.
//
// @ uninterpreted
func exitStatus(w World) int { unspecified(); return 0 }

// @ axiom exitStatus
func exitStatusIs(w World, status int) bool {
	Trigger(Exited(w, status))
	return exitStatus(Exited(w, status)) == status
}

// @ contract commands.Root.Run
// @ world
// @ prop C17
func rootRunPost(w World, h Heap[Root_], r Ref, w1 World) bool {
	c := h[r].Command
	if CommandErr(w, c) == nil {
		return Eq(w1, Commanded(w, c))
	}
	return Eq(w1, Exited(Commanded(w, c), exitStatus(w1))) && 0 < exitStatus(w1) && exitStatus(w1) < 256
}

// ---- flags and settings ----

// FlagsOf is the flag set of a command.
//
// @ result (*github.com/spf13/cobra.Command).Flags 0
func FlagsOf(w World, c Ref) Ref { unspecified(); return 0 }

// FlagNamed is the flag with a name.
//
// @ result (*github.com/spf13/pflag.FlagSet).Lookup 0
func FlagNamed(w World, set Ref, name string) Ref { unspecified(); return 0 }

// flagNames tells the name of a flag.
//
// @ uninterpreted
func flagName(f Ref) string { unspecified(); return "" }

// @ axiom FlagNamed
func flagNameIs(w World, set Ref, name string) bool {
	Trigger(FlagNamed(w, set, name))
	return flagName(FlagNamed(w, set, name)) == name
}

// OptFlag is what a flag is: the variable that it sets, its short name, and its
// default.
type OptFlag struct {
	Var   Ref
	Short string
	Text  string
	Num   int
	On    bool
}

// flags are the flags of the command line by name.
//
// @ uninterpreted
func flags(w World) map[string]OptFlag { unspecified(); return nil }

// bound are the flags that settings are bound to.
//
// @ uninterpreted
func bound(w World) map[string]string { unspecified(); return nil }

// defaults are the defaults of settings that are set apart from their flags.
//
// @ uninterpreted
func defaults(w World) map[string]any { unspecified(); return nil }

// @ effect (*github.com/spf13/pflag.FlagSet).StringVarP
func StringFlag(w World, set, p Ref, name, short, def, usage string) World {
	unspecified()
	return w
}

// @ heapout (*github.com/spf13/pflag.FlagSet).StringVarP
func StringFlagHeap(w World, h Heap[Config_], set, p Ref, name, short, def, usage string) Heap[Config_] {
	unspecified()
	return h
}

// @ axiom StringFlag
func stringFlagIs(w World, set, p Ref, name, short, def, usage string) bool {
	Trigger(StringFlag(w, set, p, name, short, def, usage))
	w1 := StringFlag(w, set, p, name, short, def, usage)
	return Eq(flags(w1), PutKey(flags(w), name, OptFlag{p, short, def, 0, false})) && Eq(bound(w1), bound(w)) && Eq(defaults(w1), defaults(w))
}

// @ effect (*github.com/spf13/pflag.FlagSet).StringVar
func PlainFlag(w World, set, p Ref, name, def, usage string) World {
	unspecified()
	return w
}

// @ axiom PlainFlag
func plainFlagIs(w World, set, p Ref, name, def, usage string) bool {
	Trigger(PlainFlag(w, set, p, name, def, usage))
	w1 := PlainFlag(w, set, p, name, def, usage)
	return Eq(flags(w1), PutKey(flags(w), name, OptFlag{p, "", def, 0, false})) && Eq(bound(w1), bound(w)) && Eq(defaults(w1), defaults(w))
}

// @ effect (*github.com/spf13/pflag.FlagSet).BoolVarP
func BoolFlag(w World, set, p Ref, name, short string, def bool, usage string) World {
	unspecified()
	return w
}

// @ heapout (*github.com/spf13/pflag.FlagSet).BoolVarP
func BoolFlagHeap(w World, h Heap[Config_], set, p Ref, name, short string, def bool, usage string) Heap[Config_] {
	unspecified()
	return h
}

// @ axiom BoolFlag
func boolFlagIs(w World, set, p Ref, name, short string, def bool, usage string) bool {
	Trigger(BoolFlag(w, set, p, name, short, def, usage))
	w1 := BoolFlag(w, set, p, name, short, def, usage)
	return Eq(flags(w1), PutKey(flags(w), name, OptFlag{p, short, "", 0, def})) && Eq(bound(w1), bound(w)) && Eq(defaults(w1), defaults(w))
}

// @ effect (*github.com/spf13/pflag.FlagSet).IntVarP
func IntFlag(w World, set, p Ref, name, short string, def int, usage string) World {
	unspecified()
	return w
}

// @ heapout (*github.com/spf13/pflag.FlagSet).IntVarP
func IntFlagHeap(w World, h Heap[Config_], set, p Ref, name, short string, def int, usage string) Heap[Config_] {
	unspecified()
	return h
}

// @ axiom IntFlag
func intFlagIs(w World, set, p Ref, name, short string, def int, usage string) bool {
	Trigger(IntFlag(w, set, p, name, short, def, usage))
	w1 := IntFlag(w, set, p, name, short, def, usage)
	return Eq(flags(w1), PutKey(flags(w), name, OptFlag{p, short, "", def, false})) && Eq(bound(w1), bound(w)) && Eq(defaults(w1), defaults(w))
}

// @ effect (*github.com/spf13/pflag.FlagSet).StringArrayVarP
func ListFlag(w World, set, p Ref, name, short string, def []string, usage string) World {
	unspecified()
	return w
}

// @ heapout (*github.com/spf13/pflag.FlagSet).StringArrayVarP
func ListFlagHeap(w World, h Heap[Config_], set, p Ref, name, short string, def []string, usage string) Heap[Config_] {
	unspecified()
	return h
}

// @ axiom ListFlag
func listFlagIs(w World, set, p Ref, name, short string, def []string, usage string) bool {
	Trigger(ListFlag(w, set, p, name, short, def, usage))
	w1 := ListFlag(w, set, p, name, short, def, usage)
	return Eq(flags(w1), PutKey(flags(w), name, OptFlag{p, short, "", len(def), false})) && Eq(bound(w1), bound(w)) && Eq(defaults(w1), defaults(w))
}

// @ effect (*github.com/spf13/pflag.FlagSet).VarP
func ValueFlag(w World, set, p Ref, name, short, usage string) World {
	unspecified()
	return w
}

// @ axiom ValueFlag
func valueFlagIs(w World, set, p Ref, name, short, usage string) bool {
	Trigger(ValueFlag(w, set, p, name, short, usage))
	w1 := ValueFlag(w, set, p, name, short, usage)
	return Eq(flags(w1), PutKey(flags(w), name, OptFlag{p, short, "", 0, false})) && Eq(bound(w1), bound(w)) && Eq(defaults(w1), defaults(w))
}

// @ effect (*github.com/spf13/pflag.FlagSet).Var
func PlainValueFlag(w World, set, p Ref, name, usage string) World {
	unspecified()
	return w
}

// @ axiom PlainValueFlag
func plainValueFlagIs(w World, set, p Ref, name, usage string) bool {
	Trigger(PlainValueFlag(w, set, p, name, usage))
	w1 := PlainValueFlag(w, set, p, name, usage)
	return Eq(flags(w1), PutKey(flags(w), name, OptFlag{p, "", "", 0, false})) && Eq(bound(w1), bound(w)) && Eq(defaults(w1), defaults(w))
}

// @ effect (*github.com/spf13/cobra.Command).MarkFlagDirname
func DirnameMarked(w World, c Ref, name string) World {
	unspecified()
	return w
}

// @ axiom DirnameMarked
func dirnameMarkedIs(w World, c Ref, name string) bool {
	Trigger(DirnameMarked(w, c, name))
	w1 := DirnameMarked(w, c, name)
	return Eq(flags(w1), flags(w)) && Eq(bound(w1), bound(w)) && Eq(defaults(w1), defaults(w))
}

// @ effect (*github.com/spf13/cobra.Command).MarkFlagFilename
func FilenameMarked(w World, c Ref, name string) World {
	unspecified()
	return w
}

// @ axiom FilenameMarked
func filenameMarkedIs(w World, c Ref, name string) bool {
	Trigger(FilenameMarked(w, c, name))
	w1 := FilenameMarked(w, c, name)
	return Eq(flags(w1), flags(w)) && Eq(bound(w1), bound(w)) && Eq(defaults(w1), defaults(w))
}

// @ effect github.com/spf13/viper.BindPFlag
func FlagBound(w World, key string, flag Ref) World {
	unspecified()
	return w
}

// @ axiom FlagBound
func flagBoundIs(w World, key string, flag Ref) bool {
	Trigger(FlagBound(w, key, flag))
	w1 := FlagBound(w, key, flag)
	return Eq(bound(w1), PutKey(bound(w), key, flagName(flag))) && Eq(flags(w1), flags(w)) && Eq(defaults(w1), defaults(w))
}

// @ effect github.com/spf13/viper.SetDefault
func DefaultSet(w World, key string, value any) World {
	unspecified()
	return w
}

// @ axiom DefaultSet
func defaultSetIs(w World, key string, value any) bool {
	Trigger(DefaultSet(w, key, value))
	w1 := DefaultSet(w, key, value)
	return Eq(defaults(w1), PutKey(defaults(w), key, value)) && Eq(bound(w1), bound(w)) && Eq(flags(w1), flags(w))
}

// EnumOf is the value of a flag that sets variable p to one of some constants;
// it stands for the variable.
//
// @ result github.com/thediveo/enumflag.New 0
func EnumOf(w World, p Ref) Ref { return p }

// @ axiom EnumOf
func enumOfIs(w World, p Ref) bool {
	Trigger(EnumOf(w, p))
	return EnumOf(w, p) == p
}

// EnumsOf is that of a list of constants.
//
// @ result github.com/thediveo/enumflag.NewSlice 0
func EnumsOf(w World, p Ref) Ref { return p }

// @ axiom EnumsOf
func enumsOfIs(w World, p Ref) bool {
	Trigger(EnumsOf(w, p))
	return EnumsOf(w, p) == p
}

// @ op addr_Config_OutputDir
func placeOutputDir(c Ref) Ref { unspecified(); return 0 }

// @ op addr_Config_StdOut
func placeStdOut(c Ref) Ref { unspecified(); return 0 }

// @ op addr_Config_LogLevel
func placeLogLevel(c Ref) Ref { unspecified(); return 0 }

// @ op addr_Config_Indent
func placeIndent(c Ref) Ref { unspecified(); return 0 }

// @ op addr_Config_Styles
func placeStyles(c Ref) Ref { unspecified(); return 0 }

// @ op addr_Config_RemoveComments
func placeRemoveComments(c Ref) Ref { unspecified(); return 0 }

// @ op addr_Config_ValueFiles
func placeValueFiles(c Ref) Ref { unspecified(); return 0 }

// @ op addr_Config_InstructionsFile
func placeInstructionsFile(c Ref) Ref { unspecified(); return 0 }

// @ op addr_Config_DefaultOnMissingAction
func placeDefaultOnMissingAction(c Ref) Ref { unspecified(); return 0 }

// @ op addr_Config_Overlay_Query
func placeOverlayQuery(c Ref) Ref { unspecified(); return 0 }

// @ op addr_Config_Overlay_Action
func placeOverlayAction(c Ref) Ref { unspecified(); return 0 }

// @ op addr_Config_Value
func placeValue(c Ref) Ref { unspecified(); return 0 }

// @ op addr_Config_Path
func placePath(c Ref) Ref { unspecified(); return 0 }

// @ op addr_Root_configFile
func placeConfigFile(r Ref) Ref { unspecified(); return 0 }

// output are the flags of the output.
func outputFlags(t map[string]OptFlag, h Heap[Root_], r Ref) map[string]OptFlag {
	o := h[r].Options
	return PutKey(PutKey(t, "output-directory", OptFlag{placeOutputDir(o), "o", "./output", 0, false}), "stdout", OptFlag{placeStdOut(o), "s", "", 0, false})
}

func outputBound(t map[string]string) map[string]string {
	return PutKey(PutKey(t, "outputDirectory", "output-directory"), "stdout", "stdout")
}

// format are the flags of the formatting.
func formatFlags(t map[string]OptFlag, h Heap[Root_], r Ref) map[string]OptFlag {
	o := h[r].Options
	return PutKey(PutKey(PutKey(t, "indent-level", OptFlag{placeIndent(o), "I", "", 2, false}), "output-style", OptFlag{placeStyles(o), "S", "", 0, false}), "remove-comments", OptFlag{placeRemoveComments(o), "", "", 0, false})
}

func formatBound(t map[string]string) map[string]string {
	return PutKey(PutKey(PutKey(t, "removeComments", "remove-comments"), "indentLevel", "indent-level"), "outputStyle", "output-style")
}

// template are the flags of templates.
func templateFlags(t map[string]OptFlag, h Heap[Root_], r Ref) map[string]OptFlag {
	o := h[r].Options
	return PutKey(t, "values-file", OptFlag{placeValueFiles(o), "f", "", 0, false})
}

func templateBound(t map[string]string) map[string]string {
	return t
}

// instruction are the flags of the instructions.
func instructionFlags(t map[string]OptFlag, h Heap[Root_], r Ref) map[string]OptFlag {
	o := h[r].Options
	return PutKey(PutKey(t, "instructions", OptFlag{placeInstructionsFile(o), "i", "", 0, false}), "default-on-missing-action", OptFlag{placeDefaultOnMissingAction(o), "", "", 0, false})
}

func instructionBound(t map[string]string) map[string]string {
	return PutKey(t, "defaultOnMissingAction", "default-on-missing-action")
}

// overlay are the flags of an overlay on the command line.
func overlayFlags(t map[string]OptFlag, h Heap[Root_], r Ref) map[string]OptFlag {
	o := h[r].Options
	return PutKey(PutKey(PutKey(PutKey(t, "query", OptFlag{placeOverlayQuery(o), "q", "", 0, false}), "action", OptFlag{placeOverlayAction(o), "a", "", 0, false}), "value", OptFlag{placeValue(o), "x", "", 0, false}), "path", OptFlag{placePath(o), "p", "", 0, false})
}

func overlayBound(t map[string]string) map[string]string {
	return t
}

// common are the flags of the configuration file and the log.
func commonFlags(t map[string]OptFlag, h Heap[Root_], r Ref) map[string]OptFlag {
	o := h[r].Options
	return PutKey(PutKey(t, "config", OptFlag{placeConfigFile(r), "", h[r].configFile, 0, false}), "log-level", OptFlag{placeLogLevel(o), "v", "", 0, false})
}

func commonBound(t map[string]string) map[string]string {
	return PutKey(PutKey(t, "configFile", "config"), "logLevel", "log-level")
}

// allFlags are the flags of the tool.
func allFlags(t map[string]OptFlag, h Heap[Root_], r Ref) map[string]OptFlag {
	return overlayFlags(templateFlags(formatFlags(outputFlags(instructionFlags(commonFlags(t, h, r), h, r), h, r), h, r), h, r), h, r)
}

func allBound(t map[string]string) map[string]string {
	return overlayBound(templateBound(formatBound(outputBound(instructionBound(commonBound(t))))))
}

// @ contract commands.Root.AddFlags
// @ world
// @ prop C21
func addFlagsPost(w World, h Heap[Root_], hc Heap[Config_], r Ref, w1 World, hc1 Heap[Config_]) bool {
	return Eq(flags(w1), allFlags(flags(w), h, r)) && Eq(bound(w1), allBound(bound(w))) && Eq(defaults(w1), PutKey(defaults(w), "outputDirectory", any("./output")))
}

// ---- the environment and the configuration file ----

// variables are the environment variables that settings are read from.
//
// @ uninterpreted
func variables(w World) map[string]string { unspecified(); return nil }

// Search is where the configuration file is sought, and the outcome.
type Search struct {
	Type, Name, File string
	Dirs             []string
	Reads            int
	Err              error
}

// @ uninterpreted
func search(w World) Search { unspecified(); return Search{} }

func sameSearch(w, w1 World) bool { return Eq(search(w1), search(w)) }

// overridden are the settings that nothing else can change.
//
// @ uninterpreted
func overridden(w World) map[string]any { unspecified(); return nil }

// @ effect github.com/spf13/viper.BindEnv
func VariableBound(w World, input []string) World { unspecified(); return w }

// @ axiom VariableBound
func variableBoundIs(w World, input []string) bool {
	Trigger(VariableBound(w, input))
	w1 := VariableBound(w, input)
	return Implies(len(input) == 2, Eq(variables(w1), PutKey(variables(w), input[0], input[1]))) && sameSearch(w, w1) && Eq(overridden(w1), overridden(w))
}

func putIf(b bool, m map[string]string, k, v string) map[string]string {
	if b {
		return PutKey(m, k, v)
	}
	return m
}

// withVariables adds the variables that were seen.
func withVariables(m map[string]string, seen map[string]bool) map[string]string {
	m = putIf(seen["YOT_CONFIG_FILE"], m, "configFile", "YOT_CONFIG_FILE")
	m = putIf(seen["YOT_DEFAULT_ON_MISSING_ACTION"], m, "defaultOnMissingAction", "YOT_DEFAULT_ON_MISSING_ACTION")
	m = putIf(seen["YOT_INDENT_LEVEL"], m, "indentLevel", "YOT_INDENT_LEVEL")
	m = putIf(seen["YOT_LOG_LEVEL"], m, "logLevel", "YOT_LOG_LEVEL")
	m = putIf(seen["YOT_OUTPUT_DIRECTORY"], m, "outputDirectory", "YOT_OUTPUT_DIRECTORY")
	m = putIf(seen["YOT_OUTPUT_STYLE"], m, "outputStyle", "YOT_OUTPUT_STYLE")
	m = putIf(seen["YOT_REMOVE_COMMENTS"], m, "removeComments", "YOT_REMOVE_COMMENTS")
	return putIf(seen["YOT_STDOUT"], m, "stdout", "YOT_STDOUT")
}

// @ hint commands.Root.initConfig
func initConfigHint(w0, w World, seen map[string]bool) bool {
	return Eq(variables(w), withVariables(variables(w0), seen)) && sameSearch(w0, w) && Eq(overridden(w), overridden(w0))
}

// @ effect github.com/spf13/viper.SetConfigType
func ConfigTypeSet(w World, t string) World { unspecified(); return w }

// @ axiom ConfigTypeSet
func configTypeSetIs(w World, t string) bool {
	Trigger(ConfigTypeSet(w, t))
	w1 := ConfigTypeSet(w, t)
	s := search(w)
	return Eq(variables(w1), variables(w)) && Eq(search(w1), Search{t, s.Name, s.File, s.Dirs, s.Reads, s.Err}) && Eq(overridden(w1), overridden(w))
}

// @ effect github.com/spf13/viper.SetConfigName
func ConfigNameSet(w World, n string) World { unspecified(); return w }

// @ axiom ConfigNameSet
func configNameSetIs(w World, n string) bool {
	Trigger(ConfigNameSet(w, n))
	w1 := ConfigNameSet(w, n)
	s := search(w)
	return Eq(variables(w1), variables(w)) && Eq(search(w1), Search{s.Type, n, s.File, s.Dirs, s.Reads, s.Err}) && Eq(overridden(w1), overridden(w))
}

// @ effect github.com/spf13/viper.SetConfigFile
func ConfigFileSet(w World, f string) World { unspecified(); return w }

// @ axiom ConfigFileSet
func configFileSetIs(w World, f string) bool {
	Trigger(ConfigFileSet(w, f))
	w1 := ConfigFileSet(w, f)
	s := search(w)
	return Eq(variables(w1), variables(w)) && Eq(search(w1), Search{s.Type, s.Name, f, s.Dirs, s.Reads, s.Err}) && Eq(overridden(w1), overridden(w))
}

// @ effect github.com/spf13/viper.AddConfigPath
func ConfigPathAdded(w World, p string) World { unspecified(); return w }

// @ axiom ConfigPathAdded
func configPathAddedIs(w World, p string) bool {
	Trigger(ConfigPathAdded(w, p))
	w1 := ConfigPathAdded(w, p)
	s := search(w)
	return Eq(variables(w1), variables(w)) && Eq(search(w1), Search{s.Type, s.Name, s.File, append(append([]string{}, s.Dirs...), p), s.Reads, s.Err}) && Eq(overridden(w1), overridden(w))
}

// @ effect github.com/spf13/viper.ReadInConfig
func ConfigRead(w World) World { unspecified(); return w }

// @ axiom ConfigRead
func configReadIs(w World) bool {
	Trigger(ConfigRead(w))
	w1 := ConfigRead(w)
	s := search(w)
	return Eq(variables(w1), variables(w)) && Eq(search(w1), Search{s.Type, s.Name, s.File, s.Dirs, s.Reads + 1, ConfigReadErr(w)}) && Eq(overridden(w1), overridden(w))
}

// @ axiom WithSetting
func withSettingIs(w World, key string, value any) bool {
	Trigger(WithSetting(w, key, value))
	w1 := WithSetting(w, key, value)
	s := search(w)
	return Eq(variables(w1), variables(w)) && Eq(search(w1), Search{s.Type, s.Name, s.File, s.Dirs, s.Reads, s.Err}) && Eq(overridden(w1), PutKey(overridden(w), key, value))
}

// @ result github.com/spf13/viper.ReadInConfig 0
func ConfigReadErr(w World) error { unspecified(); return nil }

// @ result github.com/spf13/viper.ConfigFileUsed 0
func ConfigUsed(w World) string { unspecified(); return "" }

// NotFound tells whether the error is that there is no configuration file.
//
// @ result errors.As#viper.ConfigFileNotFoundError 0
func NotFound(err error) bool { unspecified(); return false }

// sought is how the configuration file is sought when its name is f.
func sought(s Search, f string, err error) Search {
	if f != "" {
		return Search{"yaml", "yot.config", f, s.Dirs, s.Reads + 1, err}
	}
	return Search{"yaml", "yot.config", s.File, append(append([]string{}, s.Dirs...), "./", "$HOME/.yot/", "/etc/yot/"), s.Reads + 1, err}
}

// @ contract commands.Root.initConfig
// @ world
// @ sets
// @ prop C21 C17
func initConfigPost(w World, h Heap[Root_], r Ref, w1 World) bool {
	all := map[string]bool{"YOT_CONFIG_FILE": true, "YOT_DEFAULT_ON_MISSING_ACTION": true, "YOT_INDENT_LEVEL": true, "YOT_LOG_LEVEL": true,
		"YOT_OUTPUT_DIRECTORY": true, "YOT_OUTPUT_STYLE": true, "YOT_REMOVE_COMMENTS": true, "YOT_STDOUT": true}
	e := search(w1).Err
	return Eq(variables(w1), withVariables(variables(w), all)) &&
		Eq(search(w1), sought(search(w), h[r].configFile, e)) && Implies(e != nil, NotFound(e)) &&
		(Eq(overridden(w1), overridden(w)) || Eq(overridden(w1), PutKey(overridden(w), "configFile", overridden(w1)["configFile"])))
}

// ---- showing the settings ----

// Effective is the effective value of a setting, of any type.
//
// @ setting
// @ result github.com/spf13/viper.Get 0
func Effective(w World, key string) any { unspecified(); return nil }

// printedText is how fmt prints a value with the verb v.
//
// @ op printed
func printedText(v any) string { unspecified(); return "" }

// shown are the texts written to standard output, however often.
//
// @ uninterpreted
func shown(w World) map[string]bool { unspecified(); return nil }

// @ axiom FileText
func fileTextShown(w World, f Ref, s string) bool {
	Trigger(FileText(w, f, s))
	w1 := FileText(w, f, s)
	return Implies(f == StdOut(), Eq(shown(w1), PutKey(shown(w), s, true)))
}

// showing is the line that shows a setting.
func showing(w World, name, key string) string {
	return name + "=\"" + printedText(Effective(w, key)) + "\"\n"
}

func showIf(b bool, w World, m map[string]bool, name, key string) map[string]bool {
	if b {
		return PutKey(m, showing(w, name, key), true)
	}
	return m
}

// withShown adds the lines of the variables that were seen.
func withShown(w World, m map[string]bool, seen map[string]bool) map[string]bool {
	m = showIf(seen["YOT_CONFIG_FILE"], w, m, "YOT_CONFIG_FILE", "configFile")
	m = showIf(seen["YOT_DEFAULT_ON_MISSING_ACTION"], w, m, "YOT_DEFAULT_ON_MISSING_ACTION", "defaultOnMissingAction")
	m = showIf(seen["YOT_INDENT_LEVEL"], w, m, "YOT_INDENT_LEVEL", "indentLevel")
	m = showIf(seen["YOT_LOG_LEVEL"], w, m, "YOT_LOG_LEVEL", "logLevel")
	m = showIf(seen["YOT_OUTPUT_DIRECTORY"], w, m, "YOT_OUTPUT_DIRECTORY", "outputDirectory")
	m = showIf(seen["YOT_OUTPUT_STYLE"], w, m, "YOT_OUTPUT_STYLE", "outputStyle")
	m = showIf(seen["YOT_REMOVE_COMMENTS"], w, m, "YOT_REMOVE_COMMENTS", "removeComments")
	return showIf(seen["YOT_STDOUT"], w, m, "YOT_STDOUT", "stdout")
}

// @ hint commands.Root.env
func envHint(w0, w World, seen map[string]bool) bool {
	return Eq(shown(w), withShown(w0, shown(w0), seen))
}

// settingOf is the setting of a variable.
func settingOf(name string) string {
	switch name {
	case "YOT_CONFIG_FILE":
		return "configFile"
	case "YOT_DEFAULT_ON_MISSING_ACTION":
		return "defaultOnMissingAction"
	case "YOT_INDENT_LEVEL":
		return "indentLevel"
	case "YOT_LOG_LEVEL":
		return "logLevel"
	case "YOT_OUTPUT_DIRECTORY":
		return "outputDirectory"
	case "YOT_OUTPUT_STYLE":
		return "outputStyle"
	case "YOT_REMOVE_COMMENTS":
		return "removeComments"
	case "YOT_STDOUT":
		return "stdout"
	}
	return ""
}

// @ contract commands.Root.env
// @ world
// @ prop C21
func envPost(w World, h Heap[Root_], r Ref, cmd Ref, args []string, w1 World) bool {
	if len(args) == 0 {
		all := map[string]bool{"YOT_CONFIG_FILE": true, "YOT_DEFAULT_ON_MISSING_ACTION": true, "YOT_INDENT_LEVEL": true, "YOT_LOG_LEVEL": true,
			"YOT_OUTPUT_DIRECTORY": true, "YOT_OUTPUT_STYLE": true, "YOT_REMOVE_COMMENTS": true, "YOT_STDOUT": true}
		return Eq(shown(w1), withShown(w, shown(w), all))
	}
	return Implies(settingOf(args[0]) != "", Eq(shown(w1), PutKey(shown(w), showing(w, args[0], settingOf(args[0])), true)))
}
