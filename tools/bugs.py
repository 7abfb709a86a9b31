# -*- coding: utf-8 -*-
"""The planted bugs (tools/seeded.py builds /verif/seeded from this list)."""
CORE = "src/configparserenhanced/ConfigParserEnhanced.py"
EC = "src/configparserenhanced/ExceptionControl.py"
DBG = "src/configparserenhanced/Debuggable.py"
TP = "src/configparserenhanced/TypedProperty.py"
SE = "wip/setenvironment/src/setenvironment/SetEnvironment.py"
MH = "wip/setenvironment/src/setenvironment/ModuleHelper.py"
KP = "wip/keywordparser/keywordparser/KeywordParser.py"
CKP = "wip/genconfig/src/config_keyword_parser.py"
DS = "wip/determinesystem/determinesystem/DetermineSystem.py"
EKP = "wip/loadenv/loadenv/EnvKeywordParser.py"
LE = "wip/loadenv/load_env.py"
GC = "wip/genconfig/gen_config.py"
BUGS = []


# they change lines that fix commits added, so they are kept out of /verif/seeded, but the checks have to catch them all the same
OWN = {"c01-default-used", "c03-final-prefix", "c15-suffix-order", "c26-set-before-check", "c01-default-case", "c05-same-files", "c13-file-cache", "c30-empty-section", "c05-same-path", "c07-empty-name", "c23-apply-last", "c29-nope", "c24-tab"}


def B(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


CPE = "from configparserenhanced import ConfigParserEnhanced\n"

B("c01-bare-key", "C01",
  [(CORE, "        self.configparserenhanceddata.set(handler_parameters.section_root, sec_k, sec_v)\n",
    "        if sec_v is not None or \\\n"
    "           sec_k not in self.configparserenhanceddata.data.get(handler_parameters.section_root, {}):\n"
    "            self.configparserenhanceddata.set(handler_parameters.section_root, sec_k, sec_v)\n")],
  "a key that has a value in a used section and is met again later without a delimiter",
  "the value met last (None) does not win over the earlier one",
  CPE + '''
p = ConfigParserEnhanced(ini("[A]\\nkey: one\\n[B]\\nuse A\\nkey\\n"))
check(p.configparserenhanceddata["B"], {"key": None}, "a bare key overrides the used value")
''')

B("c01-quoted-last", "C01",
  [(CORE, "                sec_v = sec_v.strip('\"')\n",
    "                sec_v = sec_v.strip('\"') if sec_v[: 1] == '\"' else sec_v\n")],
  "a value with a double quote only at its end",
  "surrounding double quotes are not removed when only the closing one is there",
  CPE + '''
p = ConfigParserEnhanced(ini('[A]\\nkey: one"\\n'))
check(p.configparserenhanceddata["A"], {"key": "one"}, "trailing quote")
''')

B("c02-cycle-off-root", "C02",
  [(CORE, "        if op2 not in handler_parameters.data_internal['processed_sections']:\n",
    "        if op2 not in (section_name, handler_parameters.section_root):\n")],
  "a cycle of use links of length two or more that does not pass through the section being read",
  "parsing does not terminate (RecursionError)",
  CPE + '''
p = ConfigParserEnhanced(ini("[A]\\nuse B\\n[B]\\nb: 1\\nuse C\\n[C]\\nc: 2\\nuse B\\n"))
(d, _) = quiet(lambda: p.configparserenhanceddata["A"])
check(d, {"b": "1", "c": "2"}, "cycle B-C read from A")
''')

B("c02-report-once", "C02",
  [(CORE, "            self.exception_control_event(\"WARNING\", ValueError, message)\n",
    "            if op2 not in handler_parameters.data_internal.setdefault('reported', set()):\n"
    "                handler_parameters.data_internal['reported'].add(op2)\n"
    "                self.exception_control_event(\"WARNING\", ValueError, message)\n")],
  "two use links to the same section that are both cut in one parse",
  "the second cut link is not reported",
  CPE + '''
p = ConfigParserEnhanced(ini("[A]\\nuse B\\nuse C\\n[B]\\nuse A\\n[C]\\nuse A\\n"))
(d, out) = quiet(lambda: p.configparserenhanceddata["A"])
check(out.count("EXCEPTION SKIPPED"), 2, "warnings")
''')

B("c03-finalize-per-section", "C03",
  [(CORE, "        if finalize and section_name == handler_parameters.section_root:\n",
    "        if finalize or section_name == handler_parameters.section_root:\n")],
  "parse_section(..., finalize=False), or DEFAULT using the section being read",
  "handler_finalize runs although the call disabled it",
  CPE + '''
class P(ConfigParserEnhanced):
    calls = 0
    def handler_finalize(self, section_name, handler_parameters):
        self.calls += 1
        return 0

p = P(ini("[A]\\nk: 1\\n"))
p.parse_section("A", finalize=False)
check(p.calls, 0, "finalize disabled")
''')

B("c03-dash-in-params", "C03",
  [(CORE, "        params = [self._apply_transformation_to_parameter(x) for x in params]\n\n        return (op, params)",
    "        params = [self._apply_transformation_to_parameter(x) for x in params if x]\n\n        return (op, params)")],
  "an operation with an empty quoted parameter",
  "the handler gets too few parameters",
  CPE + '''
class P(ConfigParserEnhanced):
    def handler_op(self, section_name, hp):
        self.got = list(hp.params)
        return 0

p = P(ini("[A]\\nop '' b: 1\\n"))
p.parse_section("A")
check(p.got, ["", "b"], "parameters")
''')

B("c04-reuse-parsed", "C04",
  [(CORE, "        if op2 not in handler_parameters.data_internal['processed_sections']:\n",
    "        data = self.configparserenhanceddata\n"
    "        if type(self) is ConfigParserEnhanced and op2 in data._sections_checked and \\\n"
    "           op2 not in handler_parameters.data_internal['processed_sections']:\n"
    "            # already expanded, no need to walk it again\n"
    "            for key, value in data.data[op2].items():\n"
    "                data.set(handler_parameters.section_root, key, value)\n"
    "        elif op2 not in handler_parameters.data_internal['processed_sections']:\n")],
  "the used section was read before the using one and then changed with set(), or there is a DEFAULT section",
  "the answer for a section depends on which sections were read before",
  CPE + '''
text = "[DEFAULT]\\nk: default\\n[A]\\na: 1\\n[B]\\nk: b\\nuse A\\n"
p = ConfigParserEnhanced(ini(text))
first = dict(p.configparserenhanceddata["B"])
q = ConfigParserEnhanced(ini(text))
q.configparserenhanceddata["A"]
check(dict(q.configparserenhanceddata["B"]), first, "reading A before B")
''')

B("c04-has-section", "C04",
  [(CORE, "                    if section not in self._sections_checked:\n", "                    if section not in self.data.keys():\n")],
  "a section is first reached through a use link from another one and then read with [], options or items",
  "the section is answered as empty",
  CPE + '''
p = ConfigParserEnhanced(ini("[A]\\na: 1\\n[B]\\nuse A\\nb: 2\\n"))
p.configparserenhanceddata["B"]
check(dict(p.configparserenhanceddata.options("A")), {"a": "1"}, "A after B was read")
''')

B("c04-set-default", "C04",
  [(CORE, "            self.data[section][option] = value\n",
    "            for name in [section] if section != self._owner.default_section_name else list(self.data):\n"
    "                if name == section or option not in self.data[name]:\n"
    "                    self.data[name][option] = value\n")],
  "set() on the DEFAULT section, or reading the DEFAULT section after others were used as link targets",
  "an option of one section appears in others",
  CPE + '''
p = ConfigParserEnhanced(ini("[DEFAULT]\\nd: 0\\n[A]\\na: 1\\n"))
p.configparserenhanceddata["A"]
p.configparserenhanceddata.set("DEFAULT", "new", "x")
check(dict(p.configparserenhanceddata["A"]), {"d": "0", "a": "1"}, "A after set on DEFAULT")
''')

B("c05-last-result", "C05",
  [(CORE, "        self._reset_lazy_attr(\"_configparserdata\")\n        self._reset_lazy_attr(\"_configparserenhanceddata\")\n        del self.parse_section_last_result\n",
    "        self._reset_lazy_attr(\"_configparserdata\")\n        self._reset_lazy_attr(\"_configparserenhanceddata\")\n        if not self.parse_section_last_result:\n            del self.parse_section_last_result\n")],
  "a parse with a nonempty result, then another file is assigned",
  "the parse result of the former file stays visible",
  CPE + '''
class P(ConfigParserEnhanced):
    def handler_op(self, section_name, hp):
        hp.data_shared["x"] = 1
        return 0

p = P(ini("[A]\\nop a: 1\\n"))
p.parse_section("A")
p.inifilepath = ini("[B]\\nk: 2\\n", "b.ini")
check(p.parse_section_last_result, None, "result after another file was assigned")
''')

B("c05-delimiters-set", "C05",
  [(CORE, "        self._reset_configparserdata()\n\n        self._configparser_delimiters = tuple(value)\n",
    "        if not set(value) <= set(self.configparser_delimiters):\n"
    "            self._reset_configparserdata()\n\n        self._configparser_delimiters = tuple(value)\n")],
  "after a read, the delimiters are reduced to a subset of the former ones",
  "data split at a delimiter that is no longer one stay visible",
  CPE + '''
p = ConfigParserEnhanced(ini("[A]\\na:b = 1\\n"))
p.configparserenhanceddata["A"]
p.configparser_delimiters = ("=",)
check(dict(p.configparserenhanceddata["A"]), {"a:b": "1"}, "fewer delimiters")
''')

B("c06-any-file", "C06",
  [(CORE, "                if (inifilepath_i.exists() and inifilepath_i.is_file()) is not True:\n",
    "                if (inifilepath_i.exists() or len(self.inifilepath) > 2) is not True:\n")],
  "a list of three or more files with a missing one, or a directory instead of a file",
  "the load silently gives partial data",
  CPE + '''
a = ini("[A]\\nk: 1\\n")
b = ini("[B]\\nk: 1\\n", "b.ini")
p = ConfigParserEnhanced([a, os.path.join(TMP, "missing.ini"), b])
try:
    r = p.configparserenhanceddata["A"]
except (IOError, KeyError):
    sys.exit(0)
check(r, "IOError", "missing file in the list")
''')

B("c06-swallow", "C06",
  [(CORE, "            if self._owner != None:\n                self._parse_owner_section(section)\n            return (section in",
    "            if self._owner != None:\n                try:\n                    self._parse_owner_section(section)\n"
    "                except KeyError:\n                    if not self._owner.configparserdata.has_section(section):\n"
    "                        raise\n            return (section in")],
  "has_option() on a section with a use link to a missing section",
  "has_option answers from partial data instead of raising",
  CPE + '''
p = ConfigParserEnhanced(ini("[A]\\nk: 1\\nuse MISSING\\nz: 2\\n"))
try:
    r = p.configparserenhanceddata.has_option("A", "z")
except KeyError:
    sys.exit(0)
check(r, "KeyError", "has_option with a dangling use")
''')

B("c07-level-leak", "C07",
  [(CORE, "                    if value is None:\n                        value = \"\"\n",
    "                    if not value:\n                        value = \"\"\n"
    "                    elif value.endswith(delimiter.strip()):\n"
    "                        value = value.rstrip(delimiter)\n")],
  "a value that ends with the delimiter character",
  "the unrolled text is read back with another value",
  CPE + '''
import configparser
p = ConfigParserEnhanced(ini("[A]\\nk = http:\\n"))
c = configparser.ConfigParser()
c.read_string(p.unroll_to_str())
check(c["A"]["k"], "http:", "round trip")
''')

B("c07-write-append", "C07",
  [(CORE, "            space_around_delimiters=space_around_delimiters,\n            use_base_class_parser=use_base_class_parser\n        )\n\n        file_object.write(text)",
    "            space_around_delimiters=space_around_delimiters,\n            use_base_class_parser=use_base_class_parser or section is None\n        )\n\n        file_object.write(text)")],
  "write() of a whole file from a subclass with handlers and use_base_class_parser=False",
  "write() writes another text than unroll_to_str gives",
  CPE + '''
class P(ConfigParserEnhanced):
    def handler_op(self, section_name, hp):
        return 0

p = P(ini("[A]\\nop x: 1\\nk: 2\\n"))
f = io.StringIO()
p.write(f, use_base_class_parser=False)
check(f.getvalue(), p.unroll_to_str(use_base_class_parser=False), "write against unroll_to_str")
''')

B("c08-unknown", "C08",
  [(EC, "        req_exception_control_level = self._exception_control_map_event_to_level_req[event_type]\n",
    "        req_exception_control_level = self._exception_control_map_event_to_level_req.get(event_type.strip(), 5)\n")],
  "an event with an unknown severity below level 5",
  "the event is taken as a warning instead of being rejected",
  '''
from configparserenhanced import ExceptionControl
e = ExceptionControl()
try:
    quiet(e.exception_control_event, "SEVERE", ValueError, "x")
except Exception:
    sys.exit(0)
check("accepted", "exception", "unknown severity")
''')

B("c09-set-early", "C09",
  [(TP, "        if internal_type is not None:\n            value = internal_type(value)\n\n        if transform is not None:\n",
    "        setattr(self, varname_set, True)\n\n        if internal_type is not None:\n            value = internal_type(value)\n\n        if transform is not None:\n")],
  "a property that requires assignment, an assignment that the validator rejects, then a read",
  "the property counts as assigned after a rejected assignment",
  '''
from configparserenhanced.TypedProperty import typed_property


class X:
    p = typed_property("p", int, default=3, req_assign_before_use=True, validator=lambda v: v > 0)


x = X()
try:
    x.p = -1
except ValueError:
    pass
try:
    r = x.p
except UnboundLocalError:
    sys.exit(0)
check(r, "UnboundLocalError", "read after a rejected assignment")
''')

B("c09-shallow", "C09",
  [(TP, "                setattr(self, varname, copy.deepcopy(default))\n",
    "                setattr(self, varname, copy.copy(default))\n")],
  "a nested mutable default that one instance modifies in place below the top level",
  "instances share the inner parts of their default",
  '''
from configparserenhanced.TypedProperty import typed_property


class X:
    p = typed_property("p", dict, default={"a": []})


x, y = X(), X()
x.p["a"].append(1)
check(y.p, {"a": []}, "default of another instance")
''')

B("c10-debug-iter", "C10",
  [(CORE, "        for sec_k, sec_v in current_section.items():\n",
    "        entries = current_section.items() if self.debug_level < 6 else iter(current_section.items())\n"
    "        if self.debug_level >= 6:\n"
    "            self.debug_message(6, \"Number of options : {}\".format(sum(1 for _ in entries)))\n"
    "        for sec_k, sec_v in entries:\n")],
  "debug_level 6 or higher",
  "a diagnostic message consumes the options: the section is read as empty",
  CPE + '''
p = ConfigParserEnhanced(ini("[A]\\nk: 1\\n"))
p.debug_level = 6
(d, _) = quiet(lambda: dict(p.configparserenhanceddata["A"]))
check(d, {"k": "1"}, "section at debug level 6")
''')

B("c11-empty-shared", "C11",
  [(CORE, "            handler_parameters = self._new_handler_parameters(handler_parameters)\n\n",
    "            handler_parameters = self._new_handler_parameters(handler_parameters)\n"
    "            handler_parameters.data_shared = handler_parameters.data_shared or {}\n\n")],
  "the first handler that writes to the shared data lies in a used section",
  "what it writes is lost for the handlers that follow",
  CPE + '''
class P(ConfigParserEnhanced):
    def handler_op(self, section_name, hp):
        hp.data_shared.setdefault("seen", []).append(hp.params[0])
        return 0

p = P(ini("[A]\\nuse B\\nop a: 1\\n[B]\\nop b: 2\\n"))
check(p.parse_section("A"), {"seen": ["b", "a"]}, "shared data")
''')

B("c12-last-wins", "C12",
  [(CORE, "                self.debug_message(0, err)\n                output = 1\n",
    "                self.debug_message(0, err)\n            output = 0 if err == 0 else max(output, 1)\n")],
  "a file whose first bad section is followed by a good one",
  "validation of the whole file succeeds although a section has unhandled options",
  CPE + '''
class P(ConfigParserEnhanced):
    def handler_op(self, section_name, hp):
        return 0

p = P(ini("[A]\\nbad: 1\\n[B]\\nop x: 1\\n"))
p.exception_control_level = 1
(r, _) = quiet(p.assert_file_all_sections_handled)
check(r != 0, True, "bad section first")
''')

B("c13-class-cache", "C13",
  [(CORE, "        method_f = getattr(self, method_name, None)\n",
    "        known = ConfigParserEnhanced.__dict__.get('_known_methods')\n"
    "        if known is None:\n"
    "            known = {}\n"
    "            ConfigParserEnhanced._known_methods = known\n"
    "        if (type(self).__module__, type(self).__qualname__, method_name) not in known:\n"
    "            known[(type(self).__module__, type(self).__qualname__, method_name)] = hasattr(self, method_name)\n"
    "        method_f = getattr(self, method_name, None) if known[(type(self).__module__, type(self).__qualname__, method_name)] else None\n")],
  "two parser classes with the same name but different handlers in one process",
  "a parser does not call its own handler because a class of the same name had none",
  CPE + '''
def make(with_handler):
    class P(ConfigParserEnhanced):
        pass
    if with_handler:
        P.handler_op = lambda self, section_name, hp: 0
    return P


f = ini("[A]\\nop x: 1\\nk: 2\\n")
make(False)(f).configparserenhanceddata["A"]
check(dict(make(True)(f).configparserenhanceddata["A"]), {"k": "2"}, "handler of the second class")
''')

B("c13-active-set", "C13",
  [(CORE, "        new_handler_parameters.data_internal['processed_sections'] = set()\n",
    "        active = ConfigParserEnhanced.__dict__.get('_active_sections')\n"
    "        if active is None or handler_parameters is None and not any(self._is_active(x) for x in active):\n"
    "            active = set()\n"
    "            ConfigParserEnhanced._active_sections = active\n"
    "        new_handler_parameters.data_internal['processed_sections'] = active\n"),
   (CORE, "    def _apply_transformation_to_operation(self, operation) -> str:\n",
    "    def _is_active(self, section):\n"
    "        return sys._getframe(3).f_code.co_name != 'parse_section' or \\\n"
    "            any(f.f_code.co_name == '_parse_section_r' for f in self._frames())\n\n"
    "    def _frames(self):\n"
    "        f = sys._getframe(4).f_back\n"
    "        while f is not None:\n"
    "            yield f\n"
    "            f = f.f_back\n\n"
    "    def _apply_transformation_to_operation(self, operation) -> str:\n")],
  "a parser used from inside a handler of another one, with sections of equal names",
  "a use link of the inner parser is cut because the outer one is inside a section of that name",
  CPE + '''
inner = ConfigParserEnhanced(ini("[X]\\nuse A\\n[A]\\nk: 1\\n", "b.ini"))


class P(ConfigParserEnhanced):
    def handler_op(self, section_name, hp):
        self.got = dict(inner.configparserenhanceddata["X"])
        return 0

p = P(ini("[A]\\nop x: 1\\n"))
quiet(p.parse_section, "A")
check(p.got, {"k": "1"}, "inner parser")
''')

B("c14-root-only", "C14",
  [(CORE, "            self._check_handler_rval(handler_parameters.handler_name, output)\n",
    "            if output != 0 and section_name == handler_parameters.section_root or not isinstance(output, int):\n"
    "                self._check_handler_rval(handler_parameters.handler_name, output)\n")],
  "a handler that fails in a section reached through a use link",
  "the return code is ignored below the root section",
  CPE + '''
class P(ConfigParserEnhanced):
    @ConfigParserEnhanced.operation_handler
    def handler_op(self, section_name, hp):
        return 11

p = P(ini("[A]\\nuse B\\n[B]\\nop x: 1\\n"))
try:
    p.parse_section("A")
except RuntimeError:
    sys.exit(0)
check("no exception", "RuntimeError", "failing handler in a used section")
''')

B("c15-dedupe", "C15",
  [(CORE, "        for entry in value:\n", "        for entry in sorted(set(value), key=value.index):\n")],
  "a list that names the same file twice with another one in between that overrides it",
  "the later mention of the file does not replace the values again",
  CPE + '''
a = ini("[A]\\nk: 1\\n")
b = ini("[A]\\nk: 2\\n", "b.ini")
p = ConfigParserEnhanced([a, b, a])
check(dict(p.configparserenhanceddata["A"]), {"k": "1"}, "list a, b, a")
''')

B("c16-empty", "C16",
  [(DBG, "            print(message, end=end)\n",
    "            if message or debug_level > 0:\n                print(message, end=end)\n")],
  "an empty message at level 0",
  "the line end is not printed",
  '''
from configparserenhanced import Debuggable
(_, out) = quiet(Debuggable().debug_message, 0, "")
check(out, "\\n", "empty message")
''')

SEN = "from setenvironment import SetEnvironment\n"

B("c20-first-only", "C20",
  [(SE, "            if 'envvar' in iaction.keys():\n                rval = self._apply_envvar(op, envvar_name=iaction['envvar'], envvar_value=value)\n",
    "            if 'envvar' in iaction.keys() and (value or op != 'envvar_set'):\n"
    "                rval = self._apply_envvar(op, envvar_name=iaction['envvar'], envvar_value=value)\n")],
  "envvar-set with an empty value on a variable that has one",
  "the variable keeps its value",
  SEN + '''
os.environ["DEMO_X"] = "old"
p = SetEnvironment(ini("[A]\\nenvvar-set DEMO_X:\\n"))
quiet(p.apply, "A")
check(os.environ.get("DEMO_X"), "", "set to empty")
''')

B("c21-bash-dup", "C21",
  [(SE, "                if \"envvar\" in iaction.keys():\n                    action_name = iaction['envvar']\n",
    "                if \"envvar\" in iaction.keys():\n                    if interp == 'bash' and self.actions[section].index(iaction) > 0 and \\\n"
    "                       iaction in self.actions[section][self.actions[section].index(iaction) + 1:]:\n"
    "                        # the same command comes again later\n"
    "                        continue\n"
    "                    action_name = iaction['envvar']\n")],
  "the same envvar operation twice in a section, not at its start, with effects that accumulate",
  "the bash script leaves out one of the two operations",
  SEN + '''
import subprocess
p = SetEnvironment(ini("[A]\\nenvvar-set DEMO_Y: 1\\nenvvar-append DEMO_X: a\\nenvvar-append DEMO_X x: b\\nenvvar-append DEMO_X y: a\\n"))
s, _ = quiet(p.generate_actions_script, "A", interp="bash")
out = subprocess.run(["bash", "-c", s + "\\necho =$DEMO_X="], stdout=subprocess.PIPE, text=True, env={"PATH": "/usr/bin:/bin"}).stdout
check("=a:b:a=" in out, True, "bash script: " + out)
''')

B("c22-module-remove-prefix", "C22",
  [(SE, "                    module_name) and ((idata['value'] == None) or (module_name not in idata['value'])):\n",
    "                    module_name) and ((not idata['value']) or (not idata['value'].startswith(module_name))):\n")],
  "module-remove of a module that an earlier module-use or module-swap mentions after the start of its value",
  "the earlier action is not deleted",
  SEN + '''
p = SetEnvironment(ini("[A]\\nmodule-use: /x/gcc/files\\nmodule-remove gcc:\\nmodule-load b: 1\\n"))
quiet(p.parse_section, "A")
check([a["op"] for a in p.actions["A"]], ["module_load"], "module-remove")
''')

B("c23-stderr-case", "C23",
  [(MH, "        if stderr_ok and errcode == 0:\n            try:\n", "        if stderr_ok and errcode <= 0:\n            try:\n")],
  "modulecmd ended by a signal after it has written part of its output",
  "the incomplete output is executed",
  '''
import stat
d = os.path.join(TMP, "bin")
os.mkdir(d)
f = os.path.join(d, "modulecmd")
with open(f, "w") as h:
    h.write("#!/bin/bash\\necho \\"import os; os.environ['DEMO_Z'] = '1'\\"\\nkill -9 $$\\n")
os.chmod(f, 0o755)
os.environ["PATH"] = d
os.environ.pop("DEMO_Z", None)
from setenvironment import ModuleHelper
(r, _) = quiet(ModuleHelper.module, "load", "x")
check(os.environ.get("DEMO_Z"), None, "output of a killed command")
''')

B("c24-case", "C24",
  [(KP, "            if value in values_for_key:\n", "            if value.lower() in [v.lower() for v in values_for_key]:\n")],
  "a value that some key lists only in another case",
  "a key is given although no key lists the value",
  '''
from keywordparser import KeywordParser
p = KeywordParser(ini("[s]\\nk1: aB\\nk2: b\\n"))
try:
    r = p.get_key_for_section_value("s", "AB")
except SystemExit:
    sys.exit(0)
check(r, "SystemExit", "value in another case")
''')

B("c24-tab", "C24",
  [(KP, "                                        if re.search(r\"[\\s_]\", _)]\n",
    "                                        if re.search(r\"[ _]\", _)]\n")],
  "a value with a tab inside",
  "the value is accepted",
  '''
from keywordparser import KeywordParser
p = KeywordParser(ini("[s]\\nk1:\\n    a\\tb\\n"))
try:
    r = p.get_values_for_section_key("s", "k1")
except SystemExit:
    sys.exit(0)
check(r, "SystemExit", "value with a tab")
''')

B("c25-stale-str", "C25",
  [(CKP, "        if hasattr(self, \"_selected_options\"):\n            delattr(self, \"_selected_options\")\n\n        self._build_name = new_build_name\n",
    "        if hasattr(self, \"_selected_options\") and \\\n"
    "           set(new_build_name.split(self.delimiter)) & set(self.get_options_list_for_all_flags()):\n"
    "            delattr(self, \"_selected_options\")\n\n        self._build_name = new_build_name\n")],
  "a build name without any known option is assigned after the options of another one were read",
  "the options of the former build name are kept instead of the defaults",
  '''
from src.config_keyword_parser import ConfigKeywordParser
p = ConfigKeywordParser("x_b", ini("[configure-flags]\\nf: SELECT_ONE\\n    a\\n    b\\n"))
p.selected_options_str
p.build_name = "x"
check(p.selected_options, {"f": "a"}, "defaults")
''')

B("c26-hostmatch", "C26",
  [(DS, "            if len(matches) > 0:\n                sys_name_from_hostname = sys_name\n                break\n",
    "            if any(matches):\n                sys_name_from_hostname = sys_name\n                break\n")],
  "a host name pattern that matches with an empty text or an empty group",
  "the system is not found for the host",
  '''
import socket
from determinesystem.DetermineSystem import DetermineSystem
socket.gethostname = lambda: "node7"
d = DetermineSystem("x", ini("[s1]\\n^node(x)?\\n[s2]\\nnode\\n"), silent=True)
(r, _) = quiet(lambda: d.system_name)
check(r, "s1", "first matching system")
''')

B("c26-set-before-check", "C26",
  [(DS, "            if sys_name_from_build_name is not None:\n                system_name = sys_name_from_build_name\n",
    "            if sys_name_from_build_name is not None:\n                system_name = sys_name_from_build_name\n"
    "                self._system_name = system_name\n")],
  "a build name that contradicts the host, asked twice on the same object",
  "the second query answers instead of failing",
  '''
import socket
from determinesystem.DetermineSystem import DetermineSystem
socket.gethostname = lambda: "h1"
d = DetermineSystem("x_s2", ini("[s1]\\nh1\\n[s2]\\nh2\\n"), silent=True)
for i in range(2):
    try:
        (r, _) = quiet(lambda: d.system_name)
    except SystemExit:
        continue
    check(r, "SystemExit", "query %d" % i)
''')

ENVF = '''
f = ini("[s1]\\ngcc:\\n    gnu\\ngcc-7:\\n    gnu-7\\n    g\\n")
from loadenv.EnvKeywordParser import EnvKeywordParser


def name(build):
    try:
        return quiet(lambda: EnvKeywordParser(build, "s1", f).qualified_env_name)[0]
    except SystemExit:
        return "exit"


'''
B("c27-alias-order", "C27",
  [(EKP, "        self.aliases = sorted(self.get_aliases(), key=len, reverse=True)\n",
    "        self.aliases = sorted(self.get_aliases(), key=lambda x: len(x.split('-')[0]), reverse=True)\n")],
  "two aliases in the build name, the longer one with the shorter part before its first dash",
  "a shorter alias wins over a longer one",
  ENVF.replace("g\\n", "g-default\\n", 1) + 'check(name("gnu_g-default"), "s1_gcc-7", "longest alias")\n')

B("c27-env-len", "C27",
  [(EKP, "        self.env_names = sorted(env_names, key=len, reverse=True)\n",
    "        self.env_names = sorted(env_names, reverse=True)\n")],
  "two environment names in the build name of which the longer one comes first in the alphabet",
  "the alphabetically last environment name wins instead of the longest",
  ENVF.replace("gcc-7", "arm-clang-19") + 'check(name("gcc_arm-clang-19"), "s1_arm-clang-19", "longest name")\n')

B("c28-order", "C28",
  [(LE, "        if hasattr(self, \"_parsed_env_name\"):\n            delattr(self, \"_parsed_env_name\")\n",
    "        if hasattr(self, \"_parsed_env_name\") and hasattr(self, \"_env_stripped_build_name\"):\n"
    "            delattr(self, \"_parsed_env_name\")\n")],
  "parsed_env_name read (env_stripped_build_name not), another build name assigned, parsed_env_name read again",
  "the environment name of the former build name is returned",
  '''
import socket
socket.gethostname = lambda: "h1"
ini("[s1]\\nh1\\n", "sys.ini")
ini("[s1]\\ngcc: gnu\\nintel: icc\\n", "envs.ini")
ini("[s1_gcc]\\nenvvar-set A: 1\\n", "specs.ini")
top = ini("[load-env]\\nsupported-systems: sys.ini\\nsupported-envs: envs.ini\\nenvironment-specs: specs.ini\\n", "le.ini")
from load_env import LoadEnv
le = LoadEnv(["x_gnu"], load_env_ini_file=top)
quiet(lambda: le.parsed_env_name)
le.build_name = "x_icc"
check(quiet(lambda: le.parsed_env_name)[0], "s1_intel", "second build name")
''')

B("c28-output-name", "C28",
  [(LE, "            if f.exists():\n                f.unlink()\n", "            if f.exists() and f.suffix == \".sh\" and f.stat().st_size:\n                continue\n")],
  "the requested output script already exists (from another environment)",
  "the old script is kept, so that it does not load the parsed environment",
  '''
import socket
socket.gethostname = lambda: "h1"
import getpass
getpass.getuser = lambda: "demo-%d" % os.getpid()
atexit.register(shutil.rmtree, "/tmp/demo-%d" % os.getpid(), True)
ini("[s1]\\nh1\\n", "sys.ini")
ini("[s1]\\ngcc: gnu\\nintel: icc\\n", "envs.ini")
ini("[s1_gcc]\\nenvvar-set A: 1\\n[s1_intel]\\nenvvar-set A: 2\\n", "specs.ini")
top = ini("[load-env]\\nsupported-systems: sys.ini\\nsupported-envs: envs.ini\\nenvironment-specs: specs.ini\\n", "le.ini")
from load_env import LoadEnv
out = os.path.join(TMP, "out.sh")
for b in ("x_gnu", "x_icc"):
    le = LoadEnv(["--output", out, b], load_env_ini_file=top)
    quiet(le.write_load_matching_env)
check("LOADED_ENV_NAME=s1_intel" in open(out).read(), True, "script of the second environment")
''')

GCD = '''
import types, builtins, socket
socket.gethostname = lambda: "h1"


class O:
    def __init__(self, filename=None):
        pass

    def gen_option_list(self, section, gen="bash"):
        return ["new"]


m = types.ModuleType("setprogramoptions")
m.SetProgramOptionsCMake = O
sys.modules["setprogramoptions"] = m
import load_env
pk = types.ModuleType("LoadEnv")
pk.__path__ = []
sys.modules["LoadEnv"] = pk
sys.modules["LoadEnv.load_env"] = load_env
pk.load_env = load_env
ini("[s1]\\nh1\\n", "sys.ini")
ini("[s1]\\ngcc: gnu\\n", "envs.ini")
ini("[s1_gcc]\\nenvvar-set A: 1\\n", "specs.ini")
ini("[configure-flags]\\nf: SELECT_ONE\\n    a\\n    b\\n", "flags.ini")
ini("[s1_gcc_a]\\n", "configs.ini")
top = ini("[gen-config]\\nsupported-config-flags: flags.ini\\nconfig-specs: configs.ini\\n[load-env]\\nsupported-systems: sys.ini\\n"
          "supported-envs: envs.ini\\nenvironment-specs: specs.ini\\n", "gc.ini")
le = ini("[load-env]\\nsupported-systems: sys.ini\\nsupported-envs: envs.ini\\nenvironment-specs: specs.ini\\n", "le.ini")
ld = load_env.LoadEnv.__init__
load_env.LoadEnv.__init__ = lambda self, argv, load_env_ini_file=le: ld(self, argv, load_env_ini_file)
from gen_config import GenConfig
'''

B("c29-case", "C29",
  [(GC, "            if formatted_section_name != section_name:\n",
    "            if formatted_section_name.lower() != section_name.lower():\n")],
  "a specification section that differs from the canonical form only in case",
  "validation accepts a section that the tool can never select",
  GCD.replace("[s1_gcc_a]", "[S1_gcc_a]") + '''
g = GenConfig(["x_gnu"], gen_config_ini_file=top)
try:
    quiet(g.validate_config_specs_ini)
except ValueError:
    sys.exit(0)
check("accepted", "ValueError", "section in another case")
''')

B("c29-force-kept", "C29",
  [(GC, "        le.args.force = True\n        config_specs",
    "        self.args.force = le.args.force = True\n        config_specs")],
  "no --force, a build name that contradicts the host, and a validated specification file",
  "after validation the contradiction is no longer an error",
  GCD.replace("[s1]\\nh1\\n\", \"sys", "[s1]\\nh1\\n[s2]\\nh2\\n\", \"sys").replace(
      "[s1]\\ngcc: gnu\\n", "[s1]\\ngcc: gnu\\n[s2]\\ngcc: gnu\\n") + '''
g = GenConfig(["--yes", "s2_gnu"], gen_config_ini_file=top)
try:
    quiet(g.validate_config_specs_ini)
    (r, _) = quiet(lambda: g.complete_config)
except SystemExit:
    sys.exit(0)
check(r, "SystemExit", "system that contradicts the host")
''')


# ---- second batch ----------------------------------------------------------------------------------------------------
LED = '''
import socket
socket.gethostname = lambda: "h1"
import getpass
getpass.getuser = lambda: "demo-%d" % os.getpid()
atexit.register(shutil.rmtree, "/tmp/demo-%d" % os.getpid(), True)
ini("[s1]\\nh1\\n[s10]\\nh2\\n", "sys.ini")
ini("[s1]\\ngcc: gnu\\nintel: icc\\n[s10]\\ngcc: gnu\\n", "envs.ini")
ini("[s1_gcc]\\nenvvar-set A: 1\\n[s1_intel]\\nenvvar-set A: 2\\n[s10_gcc]\\nenvvar-set A: 3\\n", "specs.ini")
top = ini("[load-env]\\nsupported-systems: sys.ini\\nsupported-envs: envs.ini\\nenvironment-specs: specs.ini\\n", "le.ini")
from load_env import LoadEnv
'''

B("c01-blank-run", "C01",
  [(CORE, "        option_key = str(option_key).strip()\n", "        option_key = \" \".join(str(option_key).split())\n")],
  "a use of a section whose quoted name has two blanks in a row",
  "the section is not found",
  CPE + '''
p = ConfigParserEnhanced(ini("[A  B]\\nx: 1\\n[C]\\nuse 'A  B':\\n"))
check(p.configparserenhanceddata["C"], {"x": "1"}, "section with two blanks")
''')

B("c01-has-option-none", "C01",
  [(CORE, "            return (section in self.data.keys()) and (option in self.data[section].keys())\n",
    "            return self.data.get(section, {}).get(option) is not None\n")],
  "has_option() or get() of an option without a delimiter",
  "has_option says that the option does not exist",
  CPE + '''
p = ConfigParserEnhanced(ini("[A]\\nbare\\n"))
check(p.configparserenhanceddata.has_option("A", "bare"), True, "bare option")
''')

B("c03-raw-value", "C03",
  [(CORE, "            handler_parameters.raw_option = (sec_k, sec_v)\n", "            handler_parameters.raw_option = (sec_k, sec_v or \"\")\n")],
  "an operation without a delimiter",
  "the raw option given to the handler has '' instead of None as its value",
  CPE + '''
class P(ConfigParserEnhanced):
    seen = None
    def handler_op(self, section_name, handler_parameters):
        self.seen = handler_parameters.raw_option
        return 0
p = P(ini("[A]\\nop x\\n"))
quiet(p.parse_section, "A")
check(p.seen, ("op x", None), "raw option")
''')

B("c05-same-path", "C05",
  [(CORE, "        if hasattr(self, '_inifilepath'):\n            self._reset_configparserdata()\n",
    "        if hasattr(self, '_inifilepath') and set(self._inifilepath) != set(inifilepath):\n            self._reset_configparserdata()\n")],
  "the same files assigned in another order, or the same file rewritten and assigned again",
  "the contents of the former configuration remain",
  CPE + '''
a, b = ini("[A]\\nx: 1\\n", "a.ini"), ini("[A]\\nx: 2\\n", "b.ini")
p = ConfigParserEnhanced([a, b])
check(p.configparserenhanceddata["A"], {"x": "2"}, "a, b")
p.inifilepath = [b, a]
check(p.configparserenhanceddata["A"], {"x": "1"}, "b, a")
''')

B("c07-empty-name", "C07",
  [(CORE, "            if section is None:\n                for section in section_list:\n",
    "            if not section:\n                for section in section_list:\n")],
  "unroll_to_str with an empty section name",
  "the whole file instead of KeyError",
  CPE + '''
p = ConfigParserEnhanced(ini("[A]\\nx: 1\\n"))
try:
    p.unroll_to_str(section="")
except KeyError:
    sys.exit(0)
check("text", "KeyError", "empty section name")
''')

B("c09-equal-skip", "C09",
  [(TP, "        setattr(self, varname, value)\n", "        if getattr(self, varname, SENTINEL) != value:\n            setattr(self, varname, value)\n")],
  "an assignment of a value that equals the present one but has another type (1 and True, 1 and 1.0)",
  "the former value is kept",
  '''
from configparserenhanced.TypedProperty import typed_property
class T:
    x = typed_property("x", (int, float), default=0)
t = T()
t.x = 1
t.x = 1.0
check(type(t.x), float, "type of the assigned value")
''')

B("c12-bare", "C12",
  [(CORE, "        if len(section_data):\n", "        if any(v is not None for v in section_data.values()):\n")],
  "a section whose only unhandled options have no delimiter",
  "the validation succeeds",
  CPE + '''
p = ConfigParserEnhanced(ini("[A]\\nbare\\n"))
check(bool(quiet(p.assert_section_all_options_handled, "A", do_raise=False)[0]), True, "unhandled bare option")
''')

B("c14-silent", "C14",
  [(CORE, "        if handler_rval == 0:\n            pass\n",
    "        if handler_rval == 0:\n            pass\n"
    "        elif self.exception_control_silent_warnings and abs(handler_rval) <= 10:\n            output = 1\n")],
  "a handler that returns 1 to 10 at level 5 with warnings silenced",
  "RuntimeError is not raised",
  CPE + '''
class P(ConfigParserEnhanced):
    @ConfigParserEnhanced.operation_handler
    def handler_op(self, section_name, handler_parameters):
        return 3
p = P(ini("[A]\\nop x: 1\\n"))
p.exception_control_level = 5
p.exception_control_silent_warnings = True
try:
    quiet(p.parse_section, "A")
except RuntimeError:
    sys.exit(0)
check("nothing raised", "RuntimeError", "rval 3 at level 5")
''')

B("c15-prefix", "C15",
  [(CORE, "                if (inifilepath_i.exists() and inifilepath_i.is_file()) is not True:\n",
    "                if (inifilepath_i.exists() and inifilepath_i.is_file()) is not True and \\\n"
    "                   inifilepath_i.parent == self.inifilepath[0].parent:\n")],
  "a missing file in another folder than the first of the list",
  "it is ignored",
  CPE + '''
a = ini("[A]\\nx: 1\\n")
os.mkdir(os.path.join(TMP, "d"))
p = ConfigParserEnhanced([a, os.path.join(TMP, "d", "missing.ini")])
try:
    p.configparserenhanceddata["A"]
except IOError:
    sys.exit(0)
check("nothing raised", "IOError", "missing second file")
''')

B("c20-double-expand", "C20",
  [(SE, "            op = iaction['op']\n            value = iaction['value']\n",
    "            op = iaction['op']\n            value = iaction['value']\n            if value is not None:\n                value = os.path.expandvars(value)\n")],
  "a reference to a variable whose own value contains a $NAME",
  "the inserted value is expanded once more",
  SEN + '''
os.environ["DEMO_A"] = "$DEMO_B"
os.environ["DEMO_B"] = "b"
p = SetEnvironment(ini("[A]\\nenvvar-set DEMO_X: $DEMO_A\\n"))
quiet(p.apply, "A")
check(os.environ.get("DEMO_X"), "$DEMO_B", "expanded once")
''')

B("c20-early-expand", "C20",
  [(SE, "        for iaction in self.actions[section]:\n            rval = 0\n            op = iaction['op']\n            value = iaction['value']\n",
    "        values = [x['value'] if x['value'] is None else os.path.expandvars(x['value']) for x in self.actions[section]]\n"
    "        for iaction, value in zip(self.actions[section], values):\n            rval = 0\n            op = iaction['op']\n")],
  "a reference to a variable that an earlier action of the section changes",
  "the value from before apply() is inserted",
  SEN + '''
os.environ["DEMO_A"] = "old"
p = SetEnvironment(ini("[A]\\nenvvar-set DEMO_A: new\\nenvvar-set DEMO_X: $DEMO_A\\n"))
quiet(p.apply, "A")
check(os.environ.get("DEMO_X"), "new", "value at that point")
''')

B("c21-notrunc", "C21",
  [(SE, "        with open(filename, \"w\") as ofp:\n            ofp.write(output_file_str)\n",
    "        with open(filename, \"r+\" if os.path.exists(filename) else \"w\") as ofp:\n            ofp.write(output_file_str)\n")],
  "write_actions_to_file() to an existing longer file",
  "the end of the former script remains",
  SEN + '''
p = SetEnvironment(ini("[A]\\nenvvar-set X: 1\\nenvvar-set Y: 2\\n[B]\\nenvvar-set X: 3\\n"))
f = os.path.join(TMP, "s.sh")
quiet(p.write_actions_to_file, f, "A")
quiet(p.write_actions_to_file, f, "B")
check(open(f).read(), quiet(p.generate_actions_script, "B")[0], "script of B")
''')

B("c22-keep-assert", "C22",
  [(SE, "                if idata['envvar'] != envvar_name:\n",
    "                if idata['envvar'] != envvar_name or idata['op'] == 'envvar_assert_not_empty':\n")],
  "envvar-remove of a variable for which an earlier action asserts that it is not empty",
  "the assertion stays in the list",
  SEN + '''
p = SetEnvironment(ini("[A]\\nenvvar-assert-not-empty X: m\\nenvvar-remove X:\\nenvvar-set Y: 2\\n"))
quiet(p.parse_section, "A")
check([a["op"] for a in p.actions["A"]], ["envvar_set"], "envvar-remove")
''')

B("c23-apply-last", "C23",
  [(SE, "            output = max(output, abs(rval))\n", "            output = abs(rval)\n")],
  "level 0 or 1, a module operation that fails and a later action that succeeds",
  "apply() returns 0",
  '''
d = os.path.join(TMP, "bin")
os.mkdir(d)
f = os.path.join(d, "modulecmd")
with open(f, "w") as h:
    h.write("#!/bin/bash\\nexit 3\\n")
os.chmod(f, 0o755)
os.environ["PATH"] = d + ":/usr/bin:/bin"
''' + SEN + '''
p = SetEnvironment(ini("[A]\\nmodule-load x: 1\\nenvvar-set DEMO_Y: 2\\n"))
p.exception_control_level = 1
(r, _) = quiet(p.apply, "A")
check(r != 0, True, "result of apply")
''')

LMOD = '''
import types
lmod = types.ModuleType("env_modules_python")
lmod.module = lambda *a: None
sys.modules["env_modules_python"] = lmod
os.environ["LMOD_CMD"] = "x"
d = os.path.join(TMP, "bin")
os.mkdir(d)
f = os.path.join(d, "module")
with open(f, "w") as h:
    h.write("#!/bin/bash\\nfor m in $DEMO_LOADED; do [ \\"$m\\" = \\"$2\\" ] && exit 0; done\\nexit 1\\n")
os.chmod(f, 0o755)
os.environ["PATH"] = d + ":/usr/bin:/bin"
from setenvironment import ModuleHelper
'''

B("c23-lmod-last", "C23",
  [(MH, "            status = os.system(cmd)\n\n            if stderr_ok and status != 0:\n",
    "            status = os.system(cmd)\n\n            if stderr_ok and status != 0 and cmd is shell_cmds[-1]:\n")],
  "LMOD, a swap that loads the new module but leaves the old one loaded",
  "module() returns 0",
  LMOD + '''
os.environ["DEMO_LOADED"] = "a b"
(r, _) = quiet(ModuleHelper.module, "swap", "a", "b")
check(r != 0, True, "swap with the old module still loaded")
''')

B("c25-build-order", "C25",
  [(CKP, "                    selected_options[flag_name] = sorted(options_in_build_name)\n",
    "                    selected_options[flag_name] = sorted(options_in_build_name, key=str.lower)\n")],
  "a SELECT_MANY flag with options that differ in the case of their first letters",
  "the list is not sorted as other names are",
  '''
from config_keyword_parser import ConfigKeywordParser
k = ConfigKeywordParser("x_b_C", ini("[configure-flags]\\nf: SELECT_MANY\\n    b\\n    C\\n"))
check(quiet(lambda: k.selected_options)[0], {"f": ["C", "b"]}, "sorted list")
''')

B("c26-last", "C26",
  [(DS, "                sys_name_from_hostname = sys_name\n                break\n",
    "                sys_name_from_hostname = sys_name\n                if self.force_build_name is False:\n                    break\n")],
  "force, a host name that patterns of two systems match and a build name without a system",
  "the last matching system is used",
  '''
import socket
socket.gethostname = lambda: "h1"
from determinesystem import DetermineSystem
d = DetermineSystem("x", ini("[s1]\\nh1\\n[s2]\\nh\\n"), force_build_name=True)
check(quiet(lambda: d.system_name)[0], "s1", "first matching system")
''')

B("c27-hidden", "C27",
  [(EKP, "        duplicates = [_ for _ in set(alias_list) if alias_list.count(_) > 1]\n",
    "        duplicates = [_ for _ in set(alias_list) if alias_list.count(_) > 1 and _ in self.build_name]\n")],
  "an alias of two environments and a build name without it",
  "the specification is accepted",
  '''
from loadenv.EnvKeywordParser import EnvKeywordParser
try:
    quiet(EnvKeywordParser, "x_gcc", "s", ini("[s]\\ngcc: g\\n  zz\\nintel: zz\\n"))
except SystemExit:
    sys.exit(0)
check("accepted", "SystemExit", "duplicate alias")
''')

B("c28-system-substr", "C28",
  [(LE, "        if hasattr(self, \"_system_name\"):\n            delattr(self, \"_system_name\")\n",
    "        if hasattr(self, \"_system_name\") and self._system_name not in new_build_name:\n            delattr(self, \"_system_name\")\n")],
  "system name read, then a build name is assigned that names a system whose name contains the former one",
  "the former system is kept",
  LED + '''
le = LoadEnv(["--force", "x_gnu"], load_env_ini_file=top)
quiet(lambda: le.system_name)
le.build_name = "s10_gnu"
check(quiet(lambda: le.system_name)[0], "s10", "second build name")
''')

B("c29-nope", "C29",
  [(GC, "                    if response.lower()[:1] == \"n\":\n", "                    if response.lower() in [\"n\", \"no\"]:\n")],
  "an answer that starts with n but is neither n nor no",
  "the file is overwritten",
  GCD + '''
frag = ini("old", "f.cmake")
g = GenConfig(["--cmake-fragment", frag, "x_gnu"], gen_config_ini_file=top)
builtins.input = lambda *a: "never"
try:
    quiet(g.write_cmake_fragment)
except SystemExit:
    pass
check(open(frag).read(), "old", "fragment after the answer never")
''')

B("c29-validated-early", "C29",
  [(GC, "        invalid_sections = []\n        for section_name in config_specs.keys():\n",
    "        invalid_sections = []\n        self.has_been_validated = True\n        for section_name in config_specs.keys():\n")],
  "flags are asked for again after the specification file was found invalid",
  "the second request succeeds",
  GCD.replace("[s1_gcc_a]", "[s1_gcc_a]\\n[s1_gcc]") + '''
g = GenConfig(["x_gnu"], gen_config_ini_file=top)
for i in range(2):
    try:
        quiet(lambda: g.generated_config_flags_str)
    except ValueError:
        continue
    check("accepted", "ValueError", "request %d" % i)
''')

B("c02-default-again", "C02",
  [(CORE, "        handler_parameters.data_internal['processed_sections'].remove(section_name)\n",
    "        if section_name != self.default_section_name:\n"
    "            handler_parameters.data_internal['processed_sections'].remove(section_name)\n")],
  "a DEFAULT section and a use of it in another section",
  "the link is skipped and reported as a cycle",
  CPE + '''
p = ConfigParserEnhanced(ini("[DEFAULT]\\nx: 1\\n[A]\\nx: 2\\nuse DEFAULT\\n"))
(d, out) = quiet(lambda: p.configparserenhanceddata["A"])
check((d, out.count("SKIPPED")), ({"x": "1"}, 0), "DEFAULT used again")
''')

B("c03-ascii-op", "C03",
  [(CORE, "            if not re.match(r\"^[\\w\\-]+$\", sec_k_tok[0]):\n",
    "            if not re.match(r\"^[a-zA-Z0-9_\\-]+$\", sec_k_tok[0]):\n")],
  "a handler whose operation name has a letter outside ASCII",
  "the option is not passed to its handler",
  CPE + '''
class P(ConfigParserEnhanced):
    seen = 0
    def handler_größe(self, section_name, handler_parameters):
        self.seen += 1
        return 0
with open(os.path.join(TMP, "u.ini"), "w", encoding="utf-8") as f:
    f.write("[A]\\ngröße x: 1\\n")
p = P(os.path.join(TMP, "u.ini"))
quiet(p.parse_section, "A")
check(p.seen, 1, "calls of the handler")
''')

B("c11-exit-on-zero", "C11",
  [(CORE, "            self.exit_handler(handler_parameters)\n            self._check_handler_rval(",
    "            if output == 0:\n                self.exit_handler(handler_parameters)\n            self._check_handler_rval(")],
  "a wrapped handler that returns a nonzero value",
  "exit_handler is not called for it",
  CPE + '''
class P(ConfigParserEnhanced):
    n = 0
    @ConfigParserEnhanced.operation_handler
    def handler_op(self, section_name, handler_parameters):
        return 2
    def exit_handler(self, handler_parameters):
        self.n += handler_parameters.op == "op" and handler_parameters.handler_name == "handler_op"
p = P(ini("[A]\\nop x: 1\\n"))
quiet(p.parse_section, "A")
check(p.n, 1, "calls of exit_handler")
''')

B("c13-file-cache", "C13",
  [(CORE, "            self._configparserdata = configparserdata\n",
    "            stats = [(x, int(x.stat().st_mtime), x.stat().st_size) for x in self.inifilepath]\n"
    "            cache = ConfigParserEnhanced.__dict__.get('_files', {})\n"
    "            if (str(stats), self.configparser_delimiters) in cache:\n"
    "                configparserdata = cache[(str(stats), self.configparser_delimiters)]\n"
    "            cache[(str(stats), self.configparser_delimiters)] = configparserdata\n"
    "            ConfigParserEnhanced._files = cache\n"
    "            self._configparserdata = configparserdata\n")],
  "a file rewritten with the same size within a second, read by a new parser",
  "the new parser gives the former contents",
  CPE + '''
for i in range(4):
    p = ConfigParserEnhanced(ini("[A]\\nx: %d\\n" % i))
    check(p.configparserenhanceddata["A"], {"x": str(i)}, "rewritten file")
''')

B("c24-select-prefix", "C24",
  [(KP, "                                        if _ not in [\"SELECT_ONE\", \"SELECT_MANY\"]]\n",
    "                                        if not _.startswith((\"SELECT_ONE\", \"SELECT_MANY\"))]\n")],
  "a value that begins with SELECT_ONE or SELECT_MANY",
  "it is accepted although it contains the delimiter",
  '''
from keywordparser import KeywordParser
k = KeywordParser(ini("[s]\\nk: SELECT_ONE_x\\n"))
try:
    quiet(k.get_values_for_section_key, "s", "k")
except SystemExit:
    sys.exit(0)
check("accepted", "SystemExit", "value with the delimiter")
''')

B("c26-many-force", "C26",
  [(DS, "        if len(sys_names_in_build_name) > 1:\n", "        if len(sys_names_in_build_name) > 1 and self.force_build_name is False:\n")],
  "force and a build name that names two systems",
  "the first one is used",
  '''
import socket
socket.gethostname = lambda: "h1"
from determinesystem import DetermineSystem
d = DetermineSystem("s1_s2", ini("[s1]\\nh1\\n[s2]\\nh2\\n"), force_build_name=True)
try:
    quiet(lambda: d.system_name)
except SystemExit:
    sys.exit(0)
check("accepted", "SystemExit", "two systems")
''')

FM = "wip/keywordparser/keywordparser/FormattedMsg.py"
LSH = "wip/loadenv/load-env.sh"
GSH = "wip/genconfig/gen-config.sh"

# GenConfig and LoadEnv with stand-ins for what is not part of this repository
TOOLS = '''
import socket, types
socket.gethostname = lambda: "h1"
import load_env
for n, a in (("setprogramoptions", "SetProgramOptionsCMake"), ("LoadEnv", "LoadEnv"), ("LoadEnv.load_env", "LoadEnv")):
    m = sys.modules[n] = types.ModuleType(n)
    m.__path__ = []
    setattr(m, a, object if n[0] == "s" else load_env.LoadEnv)
sys.modules["LoadEnv"].load_env = load_env
import gen_config
os.environ["LOGNAME"] = os.environ["USER"] = "demo-%d" % os.getpid()
atexit.register(shutil.rmtree, "/tmp/" + os.environ["USER"], True)
NAMES = ["supported-systems", "supported-envs", "environment-specs", "supported-config-flags", "config-specs"]


def world(systems="[s1]\\nh1\\n[s2]\\nh2\\n", envs="[s1]\\ne: a\\n[s2]\\ne: a\\n", specs="[s1_e]\\nenvvar-set V: 1\\n", flags="[configure-flags]\\nf: SELECT_ONE\\n    x\\n", configs="[s1_e_x]\\nk: 1\\n"):
    for n, t in zip(NAMES, (systems, envs, specs, flags, configs)):
        ini(t, n + ".ini")
    ini("[gen-config]\\n" + "".join("%s: %s/%s.ini\\n" % (n, TMP, n) for n in NAMES[3:]) + "[load-env]\\n" + "".join("%s: %s/%s.ini\\n" % (n, TMP, n) for n in NAMES[:3]), "tool.ini")


def le(*argv):
    return load_env.LoadEnv(list(argv), load_env_ini_file=TMP + "/tool.ini")


def gc(*argv):
    return gen_config.GenConfig(list(argv), gen_config_ini_file=TMP + "/tool.ini")


def listed(f):
    out = io.StringIO()
    code = None
    with contextlib.redirect_stdout(out):
        try:
            f()
        except SystemExit as e:
            code = e.code
    text = out.getvalue() + (code if isinstance(code, str) else "")
    return [x.strip("| ")[2:] for x in text.split("\\n") if x.strip("| ").startswith("- ")]
'''
# an installation of the shell scripts with stand-ins for python3's host name, cmake and setprogramoptions
SHELL = '''
from demo_shell import Install, diff
W = Install(TMP + "/inst", "demo-%d" % os.getpid(),
            {"supported-systems": "[s1]\\nh1\\n", "supported-envs": "[s1]\\ngcc-7: gnu\\nintel: icc\\n", "environment-specs": "[s1_gcc-7]\\nenvvar-set CC: gcc\\n[s1_intel]\\nenvvar-set CC: icc\\n",
             "supported-config-flags": "[configure-flags]\\nmpi: SELECT_ONE\\n    no-mpi\\n    use-mpi\\n", "config-specs": "[COMMON]\\nk: 1\\n"}, ["-DA=1"])
atexit.register(W.close)
for i in (0, 1):
    os.makedirs(W.d + "/proj%d" % i)
B = W.base()


def shell(script, stdin=""):
    rc, dumps, out = W.run(script, B, stdin)
    check(rc, 0, "exit of the shell; " + out[-300:])
    return [(r != 0, {k: e.get(k) for k in ("CC", "LOADED_ENV_NAME")}) for r, e in dumps]


GCC = {"CC": "gcc", "LOADED_ENV_NAME": "s1_gcc-7"}
ICC = {"CC": "icc", "LOADED_ENV_NAME": "s1_intel"}
NONE = {"CC": None, "LOADED_ENV_NAME": None}
'''

B("c30-alias-of-name", "C30",
  [(EKP, "            for a in aliases_for_env:\n", "            for a in [_ for _ in aliases_for_env if not env_name.startswith(_)]:\n")],
  "an alias that is the beginning of its environment's name",
  "it is not listed",
  TOOLS + '''
world(envs="[s1]\\ngcc-7.3: gcc\\n    gnu\\n")
check(listed(le().list_envs)[1:], ["gcc-7.3", "gcc", "gnu"], "listed environments and aliases")
''')

B("c30-default-mark", "C30",
  [(CKP, 'default = " (default)" if idx == 0 else ""', 'default = " (default)" if self.is_default_option(o) else ""')],
  "an option that is the first of one flag and also a later one of another flag",
  "it is marked as default there, too",
  TOOLS + '''
world(flags="[configure-flags]\\nf: SELECT_ONE\\n    x\\n    y\\ng: SELECT_ONE\\n    z\\n    x\\n")
check(listed(gc().list_config_flags)[1:], ["f", "x (default)", "y", "g", "z (default)", "x"], "listed flags")
''')

B("c30-empty-section", "C30",
  [(GC, "        complete_configs = [_ for _ in config_specs.sections()\n", "        complete_configs = [_ for _ in config_specs.sections()\n                            if len(config_specs[_]) > 0\n")],
  "a configuration whose section has no options",
  "it is not listed",
  TOOLS + '''
world(configs="[s1_e_x]\\nk: 1\\n[s1_e_y]\\n[s2_e_x]\\nk: 1\\n")
check(listed(gc().list_configs), ["s1_e_x", "s1_e_y"], "listed configurations")
''')

B("c31-same-name", "C31",
  [(LE, "            if args.supported_envs_file is None:\n", "            if args.supported_envs_file is None or args.supported_envs_file.name == args.supported_systems_file.name:\n")],
  "files of the same name in different directories on the command line",
  "the environments are read from the file of the .ini file",
  TOOLS + '''
world()
for d in ("a", "b"):
    os.mkdir(TMP + "/" + d)
l = le("--supported-systems", ini("[s1]\\nh1\\n", "a/x.ini"), "--supported-envs", ini("[s1]\\nmine: a\\n", "b/x.ini"), "a")
check(quiet(lambda: l.parsed_env_name)[0], "s1_mine", "environment")
''')

B("c31-force-fragment", "C31",
  [(GC, 'argv += ["--force"] if self.args.force else []', 'argv += ["--force"] if self.args.force and self.args.cmake_fragment is None else []')],
  "--force together with --cmake-fragment",
  "the environment is determined without --force",
  TOOLS + '''
world()
check("--force" in gc("--force", "--cmake-fragment", TMP + "/f.cmake", "s2_a").load_env_args, True, "force is handed over")
''')

B("c32-ci-first", "C32",
  [(LSH, 'if [[ "$@" == *"--ci-mode"* ]]; then', 'if [[ "$1" == "--ci-mode" ]]; then')],
  "--ci-mode after the build name",
  "the environment is loaded in a subshell instead of the current shell",
  SHELL + '''
check(shell("source %s/load-env.sh gnu --ci-mode\\ndump $?\\n" % W.le), [(False, GCC)], "environment of the shell")
''')

B("c32-return", "C32",
  [(LSH, "    local ret_val=$ret\n", "    local ret_val=$?\n")],
  "a build name whose environment cannot be determined",
  "sourcing the script returns 0",
  SHELL + '''
check(shell("source %s/load-env.sh --ci-mode nothing\\ndump $?\\n" % W.le), [(True, NONE)], "result and environment of the shell")
''')

B("c33-helper-stays", "C33",
  [(GSH, "gen_config_py_call_args gen_config_helper\n", "gen_config_py_call_args\n")],
  "another environment loaded, in the same shell, after a configuration",
  "the function stays and is in the environment of everything started later, and loading runs it again",
  SHELL + '''
check(shell("source %s/gen-config.sh --ci-mode gnu ../proj0\\ndump $?\\nsource %s/load-env.sh --ci-mode icc > out\\ndump $?\\n" % (W.gc, W.le)), [(False, GCC), (False, ICC)], "environment")
check("B E G I N  C O N F" in open(W.d + "/work/out").read(), False, "configuration is begun by load-env.sh")
''')

B("c33-file-source", "C33",
  [(GSH, "if [ -d ${@: -1} ]; then", "if [ -e ${@: -1} ]; then")],
  "a file as source directory",
  "cmake is run on it instead of an error",
  SHELL + '''
W.put("proj.txt", "")
check(shell("source %s/gen-config.sh --ci-mode gnu ../proj.txt\\ndump $?\\n" % W.gc), [(True, NONE)], "result")
check(len(W.cmakes()), 0, "calls of cmake")
''')

RACE = SHELL + '''
from demo_sched import Shells


def race(k, one, two):
    s = Shells(W)
    a = s.start("RANDOM=1\\n" + one + "dump $?\\n", B)
    b = s.start("RANDOM=2\\n" + two + "dump $?\\n", B)
    for _ in range(k):
        a.step()
    end = a.done
    b.finish()
    a.finish()
    got = [[(r != 0, {k: e.get(k) for k in ("CC", "LOADED_ENV_NAME")}) for r, e in x.dumps()] for x in (a, b)]
    s.close()
    return end, got
'''
B("c34-one-script", "C34",
  [(LE, '                f"/tmp/{user}/load_matching_env_{unique_str}.sh"\n', '                f"/tmp/{user}/load_matching_env.sh"\n')],
  "two shells that load environments at the same time",
  "one of them gets the environment of the other",
  RACE + '''
for k in range(40):
    end, got = race(k, "source %s/load-env.sh --ci-mode gnu\\n" % W.le, "source %s/load-env.sh --ci-mode icc\\n" % W.le)
    check(got, [[(False, GCC)], [(False, ICC)]], "two shells, the second one runs after %d steps of the first" % k)
    if end:
        break
''')

B("c34-location", "C34",
  [(LSH, "load_matching_env_loc=.load_matching_env_loc.$RANDOM", "load_matching_env_loc=.load_matching_env_loc")],
  "two shells that load environments in the same directory at the same time",
  "one of them does not get its environment",
  RACE + '''
for k in range(40):
    end, got = race(k, "source %s/load-env.sh --ci-mode gnu\\n" % W.le, "source %s/load-env.sh --ci-mode icc\\n" % W.le)
    check(got, [[(False, GCC)], [(False, ICC)]], "two shells, the second one runs after %d steps of the first" % k)
    if end:
        break
''')

B("c34-options-file", "C34",
  [(GC, "        unique_str = uuid.uuid4().hex[: 8]\n", "        unique_str = str(abs(hash(str(gc.args.config_specs_file))) % 1 + 1)\n")],
  "two shells that configure at the same time",
  "cmake runs with the options of the other build name",
  RACE + '''
for k in range(40):
    end, got = race(k, "source %s/gen-config.sh --ci-mode gnu ../proj0\\n" % W.gc, "source %s/gen-config.sh --ci-mode icc_use-mpi ../proj1\\n" % W.gc)
    check(got, [[(False, GCC)], [(False, ICC)]], "environments after %d steps" % k)
    check(sorted((a[-1], a[0]) for a, _e in W.cmakes()), [("../proj0", "-DCONFIG:STRING=s1_gcc-7_no-mpi"), ("../proj1", "-DCONFIG:STRING=s1_intel_use-mpi")], "cmake after %d steps" % k)
    if end:
        break
''')

STOP = SHELL + '''
import signal
from demo_sched import Shells


def stop(script, sig, together):
    """Interrupt at every program the script starts."""
    for k in range(40):
        for name in os.listdir(W.d + "/work"):  # of a shell that was ended half-way
            os.remove(W.d + "/work/" + name)
        s = Shells(W, fine=False)
        a = s.start(script + "dump $?\\n", B)
        for _ in range(k):
            a.step()
        if a.done or a.at.split()[0] in ("rm", "cmake") or "bash_cmake_args_from" in a.at:
            s.close()
            return
        at = a.at
        if together:
            more = a.signal_all(sig)
        else:
            a.signal(sig)
            more = a.step()
        if more:
            a.finish()
        got = [(r != 0, {k: e.get(k) for k in ("CC", "LOADED_ENV_NAME")}) for r, e in a.dumps()]
        s.close()
        check(got, [(True, NONE)], "%s at %s" % (sig.name, at[:60]))
        check(os.listdir(W.d + "/work"), [], "files left by %s at %s" % (sig.name, at[:60]))
'''
B("c35-trap-goes-on", "C35",
  [(LSH, 'trap "cleanup; return 1" SIGHUP SIGINT SIGTERM', 'trap "cleanup" SIGHUP SIGINT SIGTERM')],
  "a signal while load_env.py runs or its result is read",
  "the script goes on after it has removed its files",
  STOP + '''
for sig in (signal.SIGINT, signal.SIGTERM):
    for together in (False, True):
        stop("source %s/load-env.sh --ci-mode gnu\\n" % W.le, sig, together)
''')

B("c35-no-hup", "C35",
  [(GSH, 'trap "cleanup_gc; return 1" SIGHUP SIGINT SIGTERM', 'trap "cleanup_gc; return 1" SIGINT SIGTERM')],
  "SIGHUP while gen-config.sh generates the configuration",
  "it ends the shell and its files stay",
  STOP + '''
stop("source %s/gen-config.sh --ci-mode gnu ../proj0\\n" % W.gc, signal.SIGHUP, False)
''')

# -- fifth batch --------------------------------------------------------------------------------
B("c01-default-case", "C01",
  [(CORE, "            if section_name != self.default_section_name and \\\n",
    "            if section_name.upper() != self.default_section_name.upper() and \\\n")],
  "a section whose name is the default section's in another case",
  "the options of the default section are missing in it",
  CPE + '''
p = ConfigParserEnhanced(ini("[DEFAULT]\\nk1: d\\n[default]\\nk2: x\\n"))
check(dict(p.configparserenhanceddata["default"]), {"k1": "d", "k2": "x"}, "section [default]")
''')

B("c02-cycle-case", "C02",
  [(CORE, "        if op2 not in handler_parameters.data_internal['processed_sections']:\n",
    "        if op2.lower() not in [x.lower() for x in handler_parameters.data_internal['processed_sections']]:\n")],
  "a section that uses one whose name differs from its own in case only",
  "a link that is no cycle is skipped as one",
  CPE + '''
p = ConfigParserEnhanced(ini("[gcc]\\nuse GCC\\nk1: a\\n[GCC]\\nk2: b\\n"))
r, out = quiet(lambda: dict(p.configparserenhanceddata["gcc"]))
check(r, {"k1": "a", "k2": "b"}, "use of a name in another case")
''')

B("c03-param-strip", "C03",
  [(CORE, "        output = parameter\n        return output\n", "        output = parameter.strip()\n        return output\n")],
  "a quoted parameter with blanks at its ends",
  "the handler does not get the parameter as written",
  CPE + '''
class P(ConfigParserEnhanced):
    got = None
    @ConfigParserEnhanced.operation_handler
    def handler_op(self, section_name, handler_parameters):
        self.got = list(handler_parameters.params)
        return 0
p = P(ini("[A]\\nop ' a ' b: v\\n"))
p.parse_section("A")
check(p.got, [" a ", "b"], "parameters")
''')

B("c04-missing-reparse", "C04",
  [(CORE, """                else:
                    self.exception_control_event(
                        "CATASTROPHIC",
                        KeyError,
                        "Missing section:option""", """                else:
                    self._sections_checked.discard(section)
                    self.exception_control_event(
                        "CATASTROPHIC",
                        KeyError,
                        "Missing section:option""")],
  "set() of an option, then get() of an option that is missing, then a read",
  "the value given with set() is replaced by the one of the file again",
  CPE + '''
p = ConfigParserEnhanced(ini("[A]\\nk1: a\\n"))
d = p.configparserenhanceddata
d["A"]
d.set("A", "k1", "new")
try:
    d.get("A", "nope")
    check(1, 0, "get of a missing option")
except KeyError:
    pass
check(d.get("A", "k1"), "new", "value given with set()")
''')

B("c05-delims-word", "C05",
  [(CORE, "        self._configparser_delimiters = tuple(value)\n",
    "        self._configparser_delimiters = tuple(value.split()) if isinstance(value, str) else tuple(value)\n")],
  "delimiters given as a string of two characters",
  "the two are taken for one delimiter of two characters",
  CPE + '''
p = ConfigParserEnhanced(ini("[A]\\nk1: a\\nk2= b\\n"))
p.configparser_delimiters = ":="
check(dict(p.configparserenhanceddata["A"]), {"k1": "a", "k2": "b"}, "delimiters ':='")
''')

B("c05-same-files", "C05",
  [(CORE, "        if hasattr(self, '_inifilepath'):\n            self._reset_configparserdata()\n",
    "        if hasattr(self, '_inifilepath') and (sorted(self._inifilepath) != sorted(inifilepath) or len(inifilepath) == 1):\n"
    "            self._reset_configparserdata()\n")],
  "the same files assigned in another order after a read",
  "reads give the merge in the former order",
  CPE + '''
a, b = ini("[A]\\nk: a\\n", "a.ini"), ini("[A]\\nk: b\\n", "b.ini")
p = ConfigParserEnhanced([a, b])
check(p.configparserenhanceddata.get("A", "k"), "b", "a, b")
p.inifilepath = [b, a]
check(p.configparserenhanceddata.get("A", "k"), "a", "b, a")
''')

B("c06-some-errors", "C06",
  [(CORE, "            result = self._parse_section_r(section, initialize=initialize, finalize=finalize)\n",
    "            result = self._parse_section_r(section, initialize=initialize, finalize=finalize)\n"
    "        except (OSError, KeyboardInterrupt):\n            raise\n")],
  "a handler that fails with an OSError (or is interrupted), then another read",
  "the second read returns the part that was parsed before the failure",
  CPE + '''
class P(ConfigParserEnhanced):
    @ConfigParserEnhanced.operation_handler
    def handler_op(self, section_name, handler_parameters):
        raise FileNotFoundError("tool")
p = P(ini("[A]\\nk1: a\\nop x\\nk2: b\\n"))
for i in range(2):
    try:
        r = dict(p.configparserenhanceddata["A"])
    except FileNotFoundError:
        r = "FileNotFoundError"
    check(r, "FileNotFoundError", "read %d" % (i + 1))
''')

B("c07-bare", "C07",
  [(CORE, "                    if value is None:\n                        value = \"\"\n",
    "                    if value is None:\n                        output += f\"{key}\\n\"\n                        continue\n")],
  "an option without a delimiter",
  "the unrolled text is no plain .ini: an ordinary parser refuses it",
  CPE + '''
import configparser
p = ConfigParserEnhanced(ini("[A]\\nk1\\nk2: v\\n"))
c = configparser.ConfigParser()
try:
    c.read_string(p.unroll_to_str())
    got = dict(c["A"])
except configparser.Error as ex:
    got = repr(ex)
check(got, {"k1": "", "k2": "v"}, "unrolled text read back")
''')

B("c08-once", "C08",
  [(EC, "                    sys.stdout.flush()\n",
    "                    sys.stdout.flush()\n                    if issubclass(exception_type, Warning):\n"
    "                        self.exception_control_compact_warnings = True\n")],
  "an event with a Warning class below its level, then another event",
  "an earlier event changes how a later one is reported",
  '''
from configparserenhanced import ExceptionControl
class P(ExceptionControl):
    pass
def warn(p):
    return len(quiet(p.exception_control_event, "WARNING", ValueError, "text")[1].splitlines()) > 3
p = P()
check(warn(p), True, "long warning")
quiet(p.exception_control_event, "WARNING", DeprecationWarning, "old")
check(warn(p), True, "long warning after another event")
''')

B("c10-private-at-0", "C10",
  [(CORE, "        if handler_public[1] is not None:\n            self.debug",
    "        if handler_public[1] is not None and (handler_private[1] is None or self.exception_control_level > 0):\n            self.debug")],
  "a public and a private handler of one operation, with exception_control_level 0",
  "another handler is called than at levels 1 and 2",
  CPE + '''
class P(ConfigParserEnhanced):
    def handler_op(self, section_name, handler_parameters):
        self.got = "public"
        return 0
    def _handler_op(self, section_name, handler_parameters):
        self.got = "private"
        return 0
for level in (0, 1, 2):
    p = P(ini("[A]\\nop x\\n"))
    p.exception_control_level = level
    quiet(p.parse_section, "A")
    check(p.got, "public", "handler at level %d" % level)
''')

B("c12-default-last", "C12",
  [(CORE, "            if err != 0:\n                self.debug_message(0, err)\n                output = 1\n",
    "            if err != 0:\n                self.debug_message(0, err)\n                output = 1\n"
    "            elif section == self.default_section_name:\n                output = 0\n")],
  "a default section with nothing unhandled that comes after a section with an unhandled option",
  "the whole file passes",
  CPE + '''
p = ConfigParserEnhanced(ini("[A]\\nbad: 1\\n[DEFAULT]\\n"))
try:
    r = quiet(p.assert_file_all_sections_handled)[0]
except ValueError:
    r = "ValueError"
check(r, "ValueError", "assert_file_all_sections_handled")
''')

B("c20-surrogates", "C20",
  [(SE, "            if 'envvar' in iaction.keys():\n                rval = self._apply_envvar(op, envvar_name=iaction['envvar'], envvar_value=value)\n",
    "            if value is not None:\n                value = value.encode('utf-16', 'surrogatepass').decode('utf-16', 'replace')\n"
    "                value = ''.join(c for c in value if ord(c) < 0x10000)\n"
    "            if 'envvar' in iaction.keys():\n                rval = self._apply_envvar(op, envvar_name=iaction['envvar'], envvar_value=value)\n")],
  "a value with a character outside the basic plane",
  "the character is lost",
  SEN + '''
os.environ.pop("DEMO_X", None)
p = SetEnvironment(ini("[A]\\nenvvar-set DEMO_X: a\\U0001f600b\\n"))
quiet(p.apply, "A")
check(os.environ.get("DEMO_X"), "a\\U0001f600b", "value")
''')

B("c20-other-variable", "C20",
  [(SE, "            output = max(output, abs(rval))\n",
    "            output = max(output, abs(rval))\n            os.environ.pop('_', None)\n")],
  "a variable _ in the environment, as shells set it",
  "apply() removes a variable that no action names",
  SEN + '''
os.environ["_"] = "/bin/x"
p = SetEnvironment(ini("[A]\\nenvvar-set DEMO_X: a\\n"))
quiet(p.apply, "A")
check(os.environ.get("_"), "/bin/x", "variable _")
''')

B("c21-long-reference", "C21",
  [(SE, "            arglist += [args[0], args[1]]\n\n",
    "            arglist += [args[0], args[1] if interp == 'python' else re.sub(r'\\$([A-Za-z])', r'${\\1}', args[1])]\n\n")],
  "a value that refers to a variable with a name of several letters, without braces",
  "the bash script refers to another variable",
  SEN + '''
import subprocess
p = SetEnvironment(ini("[A]\\nenvvar-set DEMO_X: $DEMO_YY/x\\n"))
s = quiet(p.generate_actions_script, "A")[0]
r = subprocess.run(["/bin/bash", "-c", s + "\\nprintf %s \\"$DEMO_X\\""], env={"PATH": "/usr/bin:/bin", "DEMO_YY": "y"}, stdout=subprocess.PIPE, text=True)
check(r.stdout, "y/x", "bash script")
''')

B("c21-quoted-blanks", "C21",
  [(SE, "            arglist += [args[0], args[1]]\n\n",
    "            arglist += [args[0], args[1] if interp == 'python' else args[1].strip()]\n\n")],
  "a value with blanks inside its quotes",
  "the bash script sets the value without them, apply() with them",
  SEN + '''
import subprocess
os.environ.pop("DEMO_X", None)
p = SetEnvironment(ini('[A]\\nenvvar-set DEMO_X: " a "\\n'))
s = quiet(p.generate_actions_script, "A")[0]
quiet(p.apply, "A")
r = subprocess.run(["/bin/bash", "-c", s + "\\nprintf %s \\"$DEMO_X\\""], env={"PATH": "/usr/bin:/bin"}, stdout=subprocess.PIPE, text=True)
check(r.stdout, os.environ["DEMO_X"], "bash script")
''')

B("c22-remove-case", "C22",
  [(SE, "                if idata['envvar'] != envvar_name:\n", "                if idata['envvar'].lower() != envvar_name.lower():\n")],
  "variables whose names differ in case only, one of them removed",
  "the actions on the other one are deleted, too",
  SEN + '''
p = SetEnvironment(ini("[A]\\nenvvar-set http_proxy: 1\\nenvvar-set HTTP_PROXY: 2\\nenvvar-remove HTTP_PROXY\\n"))
p.parse_section("A")
check([a["envvar"] for a in p.actions["A"]], ["http_proxy"], "actions left")
''')

B("c22-first-parse", "C22",
  [(SE, "        self.actions[section_name] = handler_parameters.data_shared[\"setenvironment\"]\n",
    "        self.actions.setdefault(section_name, handler_parameters.data_shared[\"setenvironment\"])\n")],
  "a caller that changes the list in actions and parses the section again",
  "the list stays as the caller left it",
  SEN + '''
p = SetEnvironment(ini("[A]\\nenvvar-set X: 1\\n"))
p.parse_section("A")
p.actions["A"].append({"op": "envvar_set", "envvar": "Y", "value": "2"})
p.parse_section("A")
check([a["envvar"] for a in p.actions["A"]], ["X"], "actions after parsing again")
''')

B("c24-far-duplicate", "C24",
  [(KP, "duplicates = [_ for _ in set(values_list) if values_list.count(_) > 1]",
    "duplicates = [a for i, a in enumerate(values_list) if a in values_list[i + 1 : i + 3]]")],
  "equal values with two others between them",
  "the duplicate is accepted",
  '''
from keywordparser import KeywordParser
p = KeywordParser(ini("[s]\\nk1:\\n    a\\n    b\\n    c\\n    a\\n"))
try:
    r = p.get_values_for_section_key("s", "k1")
except SystemExit:
    sys.exit(0)
check(r, "SystemExit", "duplicate")
''')

B("c24-empty-lookup", "C24",
  [(KP, "        if matched_key is None:\n", "        if value and matched_key is None:\n")],
  "a lookup of the empty string",
  "no error exit, None is given as the key",
  '''
from keywordparser import KeywordParser
p = KeywordParser(ini("[s]\\nk1:\\n    a\\n"))
try:
    r = p.get_key_for_section_value("s", "")
except SystemExit:
    sys.exit(0)
check(r, "SystemExit", "lookup of the empty string")
''')

# --- seventh batch
B("c03-instance-handler", "C03",
  [(CORE, "        method_f = getattr(self, method_name, None)\n", "        method_f = getattr(self, method_name, None) if hasattr(type(self), method_name) else None\n")],
  "a handler that was added to one parser object only",
  "its options are treated as plain options",
  CPE + '''
import types
p = ConfigParserEnhanced(ini("[A]\\nop x: 1\\nk: 2\\n"))
seen = []


def h(self, section_name, handler_parameters):
    seen.append(handler_parameters.params)
    return 0


p.handler_op = types.MethodType(h, p)
quiet(p.parse_section, "A")
check(seen, [["x"]], "calls of the handler")
check(dict(p.configparserenhanceddata["A"]), {"k": "2"}, "data")
''')

B("c03-final-prefix", "C03",
  [(CORE, '        if handler_name in ["initialize", "finalize"]:', '        if handler_name.startswith(("initialize", "finalize")):')],
  "an operation whose name begins with initialize or finalize",
  "its handler is not called",
  CPE + '''
class P(ConfigParserEnhanced):
    seen = ()

    def handler_finalize_build(self, section_name, handler_parameters):
        self.seen += (handler_parameters.value,)
        return 0


p = P(ini("[A]\\nfinalize-build: 1\\nk: 2\\n"))
quiet(p.parse_section, "A")
check(p.seen, ("1",), "calls of the handler")
''')

B("c03-tab-in-param", "C03",
  [(CORE, "        option_key_tok = shlex.split(option_key)\n", "        option_key_tok = shlex.split(\" \".join(option_key.split()))\n")],
  "a quoted parameter with a tab or several blanks in it",
  "the handler gets the parameter with a single blank",
  CPE + '''
class P(ConfigParserEnhanced):
    seen = ()

    def handler_op(self, section_name, handler_parameters):
        self.seen += tuple(handler_parameters.params)
        return 0


p = P(ini("[A]\\nop 'a\\tb' \\"c  d\\": 1\\n"))
quiet(p.parse_section, "A")
check(p.seen, ("a\\tb", "c  d"), "parameters")
''')

B("c01-default-used", "C01",
  [(CORE, "               self.configparserdata.has_section(section_name) and \\\n",
    "               self.configparserdata.has_section(section_name) and \\\n               \"use \" + self.default_section_name not in self.configparserdata[section_name] and \\\n")],
  "a section that uses the default section itself, after other options",
  "the default section is not expanded first, the keys come in another order",
  CPE + '''
p = ConfigParserEnhanced(ini("[DEFAULT]\\na: 1\\n[A]\\nb: 2\\nuse DEFAULT\\n"))
check(list(quiet(lambda: p.configparserenhanceddata["A"].items())[0]), [("a", "1"), ("b", "2")], "section A")
''')

B("c01-same-glyph", "C01",
  [(CORE, "import re\n", "import re\nimport unicodedata\n"), (CORE, "            sec_k = str(sec_k).strip()\n", "            sec_k = unicodedata.normalize(\"NFC\", str(sec_k)).strip()\n")],
  "two keys that look alike, one with a combining accent",
  "one of them is lost",
  CPE + '''
p = ConfigParserEnhanced(ini("[A]\\ne\\u0301: 1\\n\\u00e9: 2\\n"))
check(dict(quiet(lambda: p.configparserenhanceddata["A"])[0]), {"e\\u0301": "1", "\\u00e9": "2"}, "section A")
''')

B("c09-factory-once", "C09",
  [(TP, "                setattr(self, varname, default_factory())\n", "                setattr(self, varname, copy.copy(made.setdefault(name, default_factory())))\n"),
   (TP, "    @property\n    def prop(self):\n", "    made = {}\n\n    @property\n    def prop(self):\n")],
  "a factory that gives nested values, in two instances",
  "the instances share the inner values",
  '''
from configparserenhanced import typed_property


class C:
    p = typed_property("p", list, default_factory=lambda: [[]])


a, b = C(), C()
a.p[0].append(1)
check(b.p, [[]], "property of the other instance")
''')

B("c11-exit-late", "C11",
  [(CORE, "            self.exit_handler(handler_parameters)\n            self._check_handler_rval(handler_parameters.handler_name, output)\n",
    "            self._check_handler_rval(handler_parameters.handler_name, output)\n            self.exit_handler(handler_parameters)\n")],
  "a handler that returns a failure",
  "exit_handler is not called for it",
  CPE + '''
class P(ConfigParserEnhanced):
    seen = ()

    @ConfigParserEnhanced.operation_handler
    def handler_op(self, section_name, handler_parameters):
        return 11

    def exit_handler(self, handler_parameters):
        self.seen += (handler_parameters.handler_name,)


p = P(ini("[A]\\nop x: 1\\n"))
try:
    quiet(p.parse_section, "A")
except RuntimeError:
    pass
check(p.seen, ("handler_initialize", "handler_op"), "calls of exit_handler")
''')

B("c11-last-empty", "C11",
  [(CORE, "        self.parse_section_last_result = result\n", "        if result:\n            self.parse_section_last_result = result\n")],
  "a section whose handlers leave nothing, parsed after one that leaves something",
  "the last result is that of the former section",
  CPE + '''
class P(ConfigParserEnhanced):
    def handler_op(self, section_name, handler_parameters):
        handler_parameters.data_shared["x"] = 1
        return 0


p = P(ini("[A]\\nop x: 1\\n[B]\\nk: 2\\n"))
quiet(p.parse_section, "A")
quiet(p.parse_section, "B")
check(p.parse_section_last_result, {}, "last result")
''')

B("c15-path-list", "C15",
  [(CORE, "            value = [value]\n", "            value = str(value).split(os.pathsep)\n")],
  "one file with a ':' in its name, given as a string",
  "it is taken for a list of files and not found",
  CPE + '''
p = ConfigParserEnhanced(ini("[A]\\nk: 2\\n", "a:b.ini"))
check(dict(quiet(lambda: p.configparserenhanceddata["A"])[0]), {"k": "2"}, "section A")
''')

B("c15-suffix-order", "C15",
  [(CORE, "configparserdata.read(self.inifilepath, ", "configparserdata.read(sorted(self.inifilepath, key=lambda p: p.suffix == '.ini', reverse=True), ")],
  "a list in which a file with another suffix comes before an .ini file",
  "the files are merged in another order",
  CPE + '''
p = ConfigParserEnhanced([ini("[A]\\nk: 1\\n", "base.cfg"), ini("[A]\\nk: 2\\n", "mine.ini")])
check(dict(quiet(lambda: p.configparserenhanceddata["A"])[0]), {"k": "2"}, "section A")
''')

B("c25-three-flags", "C25",
  [(CKP, "if options_list.count(_) > 1]", "if options_list.count(_) == 2]")],
  "three flags with the same option",
  "the file is accepted",
  '''
from config_keyword_parser import ConfigKeywordParser
f = ini("[configure-flags]\\n" + "".join("%s: SELECT_ONE\\n    x\\n    %s1\\n" % (n, n) for n in "abc"))
try:
    r = quiet(lambda: ConfigKeywordParser("x", f).selected_options)[0]
except SystemExit:
    sys.exit(0)
check(r, "SystemExit", "options shared by three flags")
''')

B("c26-three-systems", "C26",
  [(DS, "        if len(sys_names_in_build_name) > 1:\n", "        if len(sys_names_in_build_name) == 2:\n")],
  "a build name with three system names",
  "it is accepted",
  '''
from determinesystem.DetermineSystem import DetermineSystem
import socket
socket.gethostname = lambda: "h1"
d = DetermineSystem("s1_s2_s3", ini("[s1]\\nh1\\n[s2]\\nh2\\n[s3]\\nh3\\n"), silent=True)
try:
    r = quiet(lambda: d.system_name)[0]
except SystemExit:
    sys.exit(0)
check(r, "SystemExit", "three systems")
''')

B("c29-force-alone", "C29",
  [(GC, "            self.load_env = LoadEnv(argv=self.load_env_args)\n", "            self.load_env = LoadEnv(argv=self.load_env_args)\n            self.load_env.args.force = self.args.force or self.args.yes\n")],
  "--yes (without --force) with a build name of another system",
  "the configuration of the other system is accepted",
  TOOLS + '''
world()
g = gc("--yes", "s2_a_x")
try:
    r = quiet(lambda: g.complete_config)[0]
except SystemExit:
    sys.exit(0)
check(r, "SystemExit", "configuration of another system")
''')

B("c30-many-aliases", "C30",
  [(EKP, "            for a in aliases_for_env:\n", "            for a in aliases_for_env[:10]:\n")],
  "an environment with more than ten aliases",
  "the others are not listed",
  TOOLS + '''
names = ["a%02d" % i for i in range(12)]
world(envs="[s1]\\ne:\\n    " + "\\n    ".join(names) + "\\n")
check(listed(le().list_envs)[1:], ["e"] + names, "listed environments and aliases")
''')

B("c32-ci-word", "C32",
  [(LSH, 'if [[ "$@" == *"--ci-mode"* ]]; then', 'if [[ "$@" == *"ci-mode"* ]]; then')],
  "a build name that contains ci-mode",
  "the environment replaces that of the current shell without --ci-mode",
  SHELL + '''
check(shell("source %s/load-env.sh gnu_ci-mode\\ndump $?\\n" % W.le, "exit\\n"), [(False, NONE)], "result and environment of the shell")
''')

B("c33-dash-h", "C33",
  [(GSH, 'if [[ $# -eq 0 || "$@" == *"--help"* ]]; then', 'if [[ $# -eq 0 || "$@" == *"-h"* ]]; then')],
  "a build name that contains -h",
  "the help is shown, cmake is not run",
  SHELL + '''
check(shell("source %s/gen-config.sh --ci-mode my-host_gnu ../proj0\\ndump $?\\n" % W.gc), [(False, GCC)], "result and environment")
check(len(W.cmakes()), 1, "calls of cmake")
''')

B("c34-script-name", "C34",
  [(LE, '                f"/tmp/{user}/load_matching_env_{unique_str}.sh"\n', '                f"/tmp/{user}/load_matching_env_{len(self.args.build_name)}.sh"\n')],
  "two shells that load environments with build names of the same length at the same time",
  "one of them gets the environment of the other",
  RACE + '''
for k in range(40):
    end, got = race(k, "source %s/load-env.sh --ci-mode gnu\\n" % W.le, "source %s/load-env.sh --ci-mode icc\\n" % W.le)
    check(got, [[(False, GCC)], [(False, ICC)]], "two shells, the second one runs after %d steps of the first" % k)
    if end:
        break
''')

B("c03-double-dash", "C03",
  [(CORE, '        output = operation.replace("-", "_")\n', '        output = re.sub("-+", "_", operation)\n')],
  "an operation with two dashes in a row",
  "the option goes to another handler, or to none",
  CPE + '''
class P(ConfigParserEnhanced):
    seen = ()
    def handler_a__b(self, section_name, handler_parameters):
        self.seen += ("a__b " + handler_parameters.op,)
        return 0
    def handler_a_b(self, section_name, handler_parameters):
        self.seen += ("a_b " + handler_parameters.op,)
        return 0
p = P(ini("[A]\\na--b x: 1\\na-b y: 2\\n"))
quiet(p.parse_section, "A")
check(p.seen, ("a__b a__b", "a_b a_b"), "calls of the handlers")
''')

B("c04-items-skip", "C04",
  [(CORE, "                for sec_i in section_list:\n                    self._parse_owner_section(sec_i)\n",
    "                for sec_i in section_list:\n                    if sec_i not in self.data:\n                        self._parse_owner_section(sec_i)\n")],
  "items() of the whole file after a read of a section that uses another one",
  "the used section is empty",
  CPE + '''
p = ConfigParserEnhanced(ini("[A]\\nuse B\\nk1: a\\n[B]\\nk2: b\\n"))
d = p.configparserenhanceddata
quiet(d.options, "A")
check({k: dict(v) for k, v in quiet(d.items)[0]}, {"A": {"k1": "a", "k2": "b"}, "B": {"k2": "b"}}, "items")
''')

B("c32-python-path", "C32",
  [(LSH, "python3 -E -s ${script_dir}/load_env.py --load-matching-env-location", "python3 -s ${script_dir}/load_env.py --load-matching-env-location")],
  "a PYTHONPATH in the shell that has a module of the same name as one that load_env.py uses",
  "the environment is not loaded",
  SHELL + '''
W.prog("python3", '#!/bin/sh\\nf=\\ncase "$1" in -E) f=-E;; esac\\nexec /opt/venv/bin/python $f -B -W ignore %s/boot.py "$@"\\n' % W.d)
os.mkdir(W.d + "/other")
open(W.d + "/other/getpass.py", "w").write("raise SystemExit(7)\\n")
check(shell("export PYTHONPATH=%s/other\\nsource %s/load-env.sh --ci-mode gnu\\ndump $?\\n" % (W.d, W.le)), [(False, GCC)], "environment of the shell")
''')
