F = 'xylem/os_support/impl.py'
G = 'xylem/installers/impl.py'
EDITS = [
    ('bad', F, "                    elif result.name in os.all_names:", "                    elif result.name == os.all_names[-1]:") ,
    ('bad', F, "                    elif result.name in os.all_names:\n                        # found a more specific derivative os; use that instead\n                        result = os\n", ""),
    ('ok', F, "                    if os.name in result.all_names:\n                        # ignore this 'parent' os\n                        pass\n                    elif result", "                    if result"),
    ('bad', F, "                    if os.name in result.all_names:", "                    if result.name in os.all_names:"),
    ('bad', F, "            if os.is_os():\n                if not result:", "            if True:\n                if not result:"),
    ('bad', F, "        if not result:\n            raise UnsupportedOSError(\n                \"None", "        if not result and not self.os_plugins:\n            raise UnsupportedOSError(\n                \"None"),
    ('bad', F, "        self._os = result", "        self._os = self._os or result"),
    ('bad', F, "                if not result:\n                    result = os\n                else:", "                if not result:\n                    result = os\n                    break\n                else:"),
    ('bad', F, "                        # found a more specific derivative os; use that instead\n                        result = os\n", "                        # found a more specific derivative os; use that instead\n                        result = os\n                        break\n"),
    ('bad', F, "        for os in self.os_plugins:\n            if os.is_os():", "        for os in self.os_plugins[1:]:\n            if os.is_os():"),
    ('bad', F, "            raise UnsupportedOSError(\n                \"None", "            raise UnsupportedOSVersionError(\n                \"None"),
    # behaviour preserving
    ('ok', F, "                    if os.name in result.all_names:\n                        # ignore this 'parent' os\n                        pass\n                    elif result.name in os.all_names:", "                    if result.name in os.all_names:\n                        result = os\n                    elif os.name in result.all_names:\n                        pass\n                    elif False:"),
    ('ok', F, "        for os in self.os_plugins:\n            if os.is_os():\n                if not result:", "        for os in [p for p in self.os_plugins if p.is_os()]:\n            if True:\n                if result is None:"),
    ('ok', F, "            if os.is_os():\n                if not result:\n                    result = os\n                else:\n", "            if not os.is_os():\n                continue\n            if result is None:\n                result = os\n            else:\n                if True:\n"),
    # any most specific plugin may win
    ('ok', F, "        for os in self.os_plugins:\n            if os.is_os():", "        for os in reversed(self.os_plugins):\n            if os.is_os():"),
]
EDITS += [
    ('bad', 'xylem/os_support/impl.py', '                    elif result.name in os.all_names:', '                    elif result.name in os.all_names[1:2]:'),
    ('ok', 'xylem/os_support/impl.py', '                    elif result.name in os.all_names:', '                    elif result.name in os.all_names[1:]:'),
]
