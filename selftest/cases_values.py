S = 'src/Format.cxx'
H = 'include/Format.hxx'
TAIL = '''    std::string field = ss.str();
    std::replace(field.begin(), field.end(), '.', separator);
    insertField(field);
'''
LOG = '''      while(v_norm < 1.0) {
	ret -= 3; 
	v_norm = v_norm * 1000.0; 
      }
'''
EXPO = '''	if(exp_val < 0) {
	  ss << '-' << std::setw(2) << -exp_val;
	}
	else {
	  ss << '+'  << std::setw(2) << exp_val;	  
	}
'''
SIGN = "	ss << ((v < 0) ? '-' : ' ');\n"
CASES = [
    ('f07-step', 'bug', 'F07', [(S, 'ret += 3;', 'ret += 1;')]),
    ('f07-step10', 'bug', 'F07', [(S, LOG, LOG.replace('ret -= 3', 'ret -= 1').replace('1000.0', '10.0'))]),
    ('f07-start', 'bug', 'F07', [(S, LOG, '      ret = -1;\n' + LOG)]),
    ('f07-sign-av', 'bug', 'F07', [(S, SIGN, SIGN.replace('v < 0', 'av < 0'))]),
    ('f07-sign-norm', 'bug', 'F07', [(S, SIGN, "	ss << ' ';\n")]),
    ('f07-sign-flip', 'bug', 'F07', [(S, SIGN, SIGN.replace('v < 0', 'v > 0'))]),
    ('f07-sign-tiny', 'bug', 'F07', [(S, SIGN, SIGN.replace('v < 0', 'v < -1.0e-18'))]),
    ('f07-inf', 'bug', 'F07', [(S, '(v < 0) ? "-inf" : "inf"', '"inf"')]),
    ('f07-inf2', 'bug', 'F07', [(S, '(v < 0) ? "-inf" : "inf"', '(v < 0) ? "inf" : "-inf"')]),
    ('f07-radix-f', 'bug', 'F07', [(S, "    std::replace(field.begin(), field.end(), '.', separator);\n", "    if(fmt != 'f') std::replace(field.begin(), field.end(), '.', separator);\n")]),
    ('f07-radix-s', 'bug', 'F07', [(S, "    std::replace(field.begin(), field.end(), '.', separator);\n", "    if(fmt != 's') std::replace(field.begin(), field.end(), '.', separator);\n")]),
    ('f07-radix-none', 'bug', 'F07', [(S, "    std::replace(field.begin(), field.end(), '.', separator);\n", "")]),
    ('f07-radix-comma', 'bug', 'F07', [(S, "'.', separator);\n", "'.', ',');\n")]),
    ('f07-expval', 'bug', 'F07', [(S, 'int_part, frac_part, \n		    int_wid, frac_wid);\n', 'int_part, frac_part, \n		    int_wid, frac_wid);\n if(frac_wid > 12) exp_val++;\n')]),
    # the same behaviour
    ('f07-s-abs', 'same', 'F07 F05 F01 F06', [(S, 'double av = fabs(v);', 'double av = (v < 0.0) ? -v : v;')]),
    ('f07-s-signvar', 'same', 'F07 F01', [(S, SIGN, "	char sc = ' ';\n	if(v < 0) sc = '-';\n	ss << sc;\n")]),
    ('f07-s-signbit', 'same', 'F07 F01', [(S, SIGN, "	ss << (std::signbit(v) ? '-' : ' ');\n")]),
    ('f07-s-neg', 'same', 'F07 F01', [(S, '      insertField(pad((v < 0) ? "-inf" : "inf", width));\n', '      bool neg = v < 0;\n      std::string t("inf");\n      if(neg) t = "-" + t;\n      insertField(pad(t, width));\n')]),
    ('f07-s-ifelse', 'same', 'F07 F01', [(S, EXPO, "	ss << ((exp_val < 0) ? '-' : '+') << std::setw(2) << abs(exp_val);\n")]),
    ('f07-s-helper', 'same', 'F07 F01', [(S, TAIL, '    insertField(radixed(ss.str()));\n'), (S, '  Format & Format::addF(', "  static std::string radixed(std::string t) {\n    std::replace(t.begin(), t.end(), '.', Format::separator);\n    return t;\n  }\n\n  Format & Format::addF(")]),
    ('f07-s-loop', 'same', 'F07 F01', [(S, "    std::replace(field.begin(), field.end(), '.', separator);\n", "    for(auto & c : field) {\n      if(c == '.') c = separator;\n    }\n")]),
    ('f07-s-index', 'same', 'F07 F01', [(S, "    std::replace(field.begin(), field.end(), '.', separator);\n", "    for(size_t i = 0; i < field.size(); i++) {\n      if(field[i] == '.') field[i] = separator;\n    }\n")]),
    ('f07-s-mult', 'same', 'F07 F01', [(S, LOG, LOG.replace('ret -= 3;', 'k++;').replace('while', 'int k = 0;\n while', 1) + '      ret = -3 * k;\n')]),
    ('f07-s-for', 'same', 'F07 F01 F06', [(S, LOG, '      for(; v_norm < 1.0; v_norm *= 1000.0) ret -= 3;\n')]),
    ('f07-s-switch', 'same', 'F07 F01', [(S, '''    switch (fmt) {
    case 'f':
''', '''    const char notation = fmt;
    switch (notation) {
    case 'f':
''')]),
]
