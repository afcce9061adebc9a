S = 'src/Options.cxx'
H = 'include/Options.hxx'
P1 = '''	if(arg_p->is_signed) {
	  waiting_for_signed = true; 
	}
'''
PF = '''	if(arg_p->isPresentOpt()) {
	  arg_p->setPresent();
	  arg_p = nullptr; 
	}
'''
LASTP = '''    if(arg_p != nullptr) {
      arg_p->setPresent(); 
    }
'''
HDR = '    waiting_for_signed = false; \n    try {\n'
POS = '''	else {
	  // it is a positional argument.
	  pos_arg_vec.push_back(tkn);
	}
'''
TAKE = '''	  arg_p->setVal(tkn);
	  waiting_for_signed = false; 
	  arg_p = nullptr; 
'''
OPTSET = '''	T v; 
	setValBase(v, vstr);
	if (!test_func(v)) {
	  throw BadOptValueException(long_name, vstr, err_msg); 	  
	}
	*val_p = v; 
	return setPresent(); 
'''
VECSET = '''	T v;
	setValBase(v, vstr);

	if (!test_func(v)) {	
	  throw BadOptValueException(long_name, vstr, err_msg);
	}

	argvec_p->push_back(v);

	present = true; 	

	return true; 
'''
REG = '''    long_map[long_name] = arg_p;
    ab_map[ab_name] = arg_p;       
'''
TOK = '''    for(auto c : s) {
      if(isspace(c)) {
	if(in_quote) {
	  cur_tkn.push_back(c);
	}
	else if(cur_tkn.length() > 0) {
	  ret.push_back(cur_tkn);
	  cur_tkn.clear();
	}
      }
      else if(c == '\\"') {
	if(in_quote) {
	  // push the token. 
	  ret.push_back(cur_tkn);
	  cur_tkn.clear();
	  in_quote = false; 
	}
	else {
	  // start of a quoted string...
	  in_quote = true; 
	}
      }
      else {
	cur_tkn.push_back(c);
      }
    }
'''
CATCHV = '''    catch (BadOptValueException & exc) {
      std::cerr << exc.what() << "\\n";
      return false; 
    }
'''
KVKEY = '''      auto eq_pos = kv.find('=');
      auto key = kv.substr(0, eq_pos);
'''
KVSET = '''      if(eq_pos == std::string::npos) {
	arg_p->setPresent();
      }
      else {
	arg_p->setVal(kv.substr(eq_pos + 1));
      }
'''
HELP = '''      auto arg_p = ele.second;
      if(is_kvp) {
'''
SW = '''    if(tkn.length() < 2) return 0;

    
    // does it start with anything other than - ? 
    if(tkn[0] != '-') {
      return 0; 
    }
'''
CASES = [
    # ---- result
    ('o-ret-unknown', 'bug', 'O01', [(S, 'throw BadOptionNameException(tkn); ', 'continue;')]),
    ('o-ret-badvalue', 'bug', 'O01', [(S, CATCHV, CATCHV.replace('return false; ', ''))]),
    ('o-ret-help', 'bug', 'O01', [(S, '''	  if(tkn == "--help") {
	    printHelp(std::cerr);
	    return false; ''', '''	  if(tkn == "--help") {
	    printHelp(std::cerr);
	    return true; ''')]),
    ('o-ret-helpname', 'bug', 'O01', [(S, 'tkn == "--help"', 'tkn == "-help"')]),
    ('o-ret-uncaught', 'bug', 'O01', [(S, CATCHV + '    catch (BadOptionNameException & exc) {', '    catch (BadOptionNameException & exc) {')]),
    ('o-ret-stoi', 'bug', 'O01', [(H, '	  int foo;\n	  std::stringstream ss(vs, std::ios::in);\n	  ss >> foo;\n	  if(!ss) {', '	  int foo = std::stoi(vs);\n	  if(foo < -99999) {')]),
    ('o-ret-wrapper', 'bug', 'O01', [(S, '    return is_kvp ? parseKeyValue(tokens) : parse(tokens);', '    if(is_kvp) parseKeyValue(tokens); else parse(tokens);\n    return true;')]),
    ('o-ret-mode', 'bug', 'O01', [(S, '    return is_kvp ? parseKeyValue(tokens) : parse(tokens);', '    return parse(tokens);')]),
    ('o-ret-silent', 'bug', 'O01', [(H, OPTSET, OPTSET.replace('throw BadOptValueException(long_name, vstr, err_msg); ', 'return false;'))]),
    ('o-ret-kvunknown', 'bug', 'O01 O07', [(S, 'throw BadOptionNameException(key); ', 'continue;')]),
    ('o-help-format', 'bug', 'O01', [(S, '"   --%0 -%1     "', '"   --%0 -%2     "')]),
    # ---- values
    ('o-val-early', 'bug', 'O02', [(H, OPTSET, '''	setValBase(*val_p, vstr);
	if (!test_func(*val_p)) {
	  throw BadOptValueException(long_name, vstr, err_msg); 	  
	}
	return setPresent(); 
''')]),
    ('o-val-notest', 'bug', 'O02', [(H, VECSET, VECSET.replace('if (!test_func(v)) {', 'if (argvec_p->empty() && !test_func(v)) {'))]),
    ('o-val-testold', 'bug', 'O02', [(H, OPTSET, OPTSET.replace('test_func(v)', 'test_func(*val_p)'))]),
    ('o-val-front', 'bug', 'O02', [(H, 'argvec_p->push_back(v);', 'argvec_p->insert(argvec_p->begin(), v);')]),
    ('o-val-clear', 'bug', 'O02', [(H, 'argvec_p->push_back(v);', 'if(!present) argvec_p->clear();\n	argvec_p->push_back(v);')]),
    ('o-val-dup', 'bug', 'O02', [(H, 'argvec_p->push_back(v);', 'if(argvec_p->empty() || argvec_p->back() != v) argvec_p->push_back(v);')]),
    ('o-val-bool', 'bug', 'O02', [(H, 'v = (foo != 0);', 'v = (foo > 0);')]),
    ('o-val-bool2', 'bug', 'O02', [(H, "(vs == \"FALSE\") || (vs[0] == 'F')", "(vs == \"FALSE\")")]),
    ('o-val-bool3', 'bug', 'O02', [(H, "(vs == \"TRUE\") || (vs[0] == 'T')", "(vstr == \"TRUE\") || (vstr[0] == 'T')")]),
    ('o-val-int', 'bug', 'O02', [(H, '''	ss >> v;
	if(!ss) {''', '''	int iv;
	ss >> iv;
	v = iv;
	if(!ss) {''')]),
    ('o-val-nocheck', 'bug', 'O02', [(H, '	if(!ss) {\n	  throw BadOptValueException(long_name, vstr, err_msg); \n	}\n', '')]),
    ('o-val-keepwaiting', 'bug', 'O02', [(S, TAKE, TAKE.replace('	  arg_p = nullptr; \n', ''))]),
    ('o-val-signedflag', 'bug', 'O05', [(S, TAKE, TAKE.replace('	  waiting_for_signed = false; \n', ''))]),
    ('o-val-notsigned', 'bug', 'O02', [(S, P1, '')]),
    ('o-val-signedreg', 'bug', 'O02', [(H, '''						 def_val,
						 std::is_signed<T>::value,''', '''						 def_val,
						 std::is_integral<T>::value,''')]),
    ('o-val-hasdefault', 'bug', 'O02', [(H, 'OptBase(doc_str, err_msg, is_signed, true), val_p(val)', 'OptBase(doc_str, err_msg, is_signed, false), val_p(val)')]),
    ('o-val-trim', 'bug', 'O02', [(H, '	v = vstr; \n', "	v = vstr.substr(vstr.find_first_not_of(' ') == std::string::npos ? 0 : vstr.find_first_not_of(' '));\n")]),
    # ---- presence
    ('o-pres-last', 'bug', 'O03', [(S, LASTP, '')]),
    ('o-pres-mid', 'bug', 'O03', [(S, '''	if(arg_p != nullptr) {
	  arg_p->setPresent(); 
	  waiting_for_signed = arg_p->is_signed; 
	}
''', '''	if(arg_p != nullptr) {
	  waiting_for_signed = arg_p->is_signed; 
	}
''')]),
    ('o-pres-vec', 'bug', 'O03', [(H, '	present = true; 	\n\n	return true; \n', '	return true; \n')]),
    ('o-pres-opt', 'bug', 'O03', [(H, '	*val_p = v; \n	return setPresent(); ', '	*val_p = v; \n	return true; ')]),
    ('o-pres-flag', 'bug', 'O03', [(H, '	*val_p = true;\n	return OptBase::setPresent();', '	*val_p = !present;\n	return OptBase::setPresent();')]),
    ('o-pres-flagkv', 'bug', 'O03', [(H, '	*val_p = true; \n	present = true; \n	return true; ', '	*val_p = (vstr.size() > 0); \n	present = true; \n	return true; ')]),
    ('o-pres-insert', 'bug', 'O03', [(S, '''    if(ab_map.find(ab_name) == ab_map.end()) {
      return false; 
    }
    return ab_map[ab_name]->isPresent();''', '''    auto p = ab_map[ab_name];
    return (p != nullptr) && p->isPresent();''')]),
    ('o-pres-init', 'bug', 'O03', [(H, '	present = false; \n', '	present = !has_default; \n')]),
    ('o-pres-short', 'bug', 'O03', [(S, "arg_p = findOpt(tkn[1]);", "arg_p = findOpt(tkn[tkn.size() - 1]);")]),
    ('o-pres-ret', 'bug', 'O03', [(H, '	bool old = present; \n	present = true; \n', '	bool old = present; \n	present = !old; \n')]),
    ('o-pres-kv', 'bug', 'O03', [(S, '''	arg_p->setPresent();
      }
      else {
	arg_p->setVal''', '''	arg_p->hasDefault();
      }
      else {
	arg_p->setVal''')]),
    # ---- independence
    ('o-ind-stale', 'bug', 'O04', [(S, '    waiting_for_signed = false; \n    try {\n', '    try {\n')]),
    # ---- positional
    ('o-pos-front', 'bug', 'O05', [(S, '	  pos_arg_vec.push_back(tkn);', '	  pos_arg_vec.insert(pos_arg_vec.begin(), tkn);')]),
    ('o-pos-empty', 'bug', 'O05', [(S, '	  pos_arg_vec.push_back(tkn);', '	  if(!tkn.empty()) pos_arg_vec.push_back(tkn);')]),
    ('o-pos-dash', 'bug', 'O05', [(S, SW, SW.replace('tkn.length() < 2', 'tkn.length() < 1')), (S, '    // it starts with a -.  Is that all there is? \n    if(tkn.length() < 2) return 0;\n', '')]),
    ('o-pos-ddash', 'bug', 'O05', [(S, 'if(tkn.length() < 3) return 0; ', 'if(tkn.length() < 3) return 1; ')]),
    ('o-pos-index', 'bug', 'O05', [(S, 'if(idx >= pos_arg_vec.size())', 'if(idx > (int)pos_arg_vec.size())')]),
    ('o-pos-neg', 'bug', 'O05', [(S, 'if(idx >= pos_arg_vec.size())', 'if(idx >= (int)pos_arg_vec.size())')]),
    ('o-pos-num', 'bug', 'O05', [(H, 'int numPosArgs() { return pos_arg_vec.size(); }', 'int numPosArgs() { return pos_arg_vec.size() ? pos_arg_vec.size() - 1 : 0; }')]),
    ('o-pos-argv0', 'bug', 'O05', [(S, 'for(int i = 1; i < argc; i++) {\n      ret', 'for(int i = 1; i < argc - 1; i++) {\n      ret')]),
    ('o-pos-argvskip', 'bug', 'O05', [(S, '      ret.push_back(std::string(argv[i]));', "      if(argv[i][0] != 0) ret.push_back(std::string(argv[i]));")]),
    # ---- tokens
    ('o-tok-last', 'bug', 'O06', [(S, '''    if(cur_tkn.length() > 0) {
      ret.push_back(cur_tkn);
    }

    return ret; ''', '''    if(cur_tkn.length() > 0 && !in_quote) {
      ret.push_back(cur_tkn);
    }

    return ret; ''')]),
    ('o-tok-tab', 'bug', 'O06', [(S, TOK, TOK.replace('isspace(c)', "c == ' '"))]),
    ('o-tok-clear', 'bug', 'O06', [(S, TOK, TOK.replace('''	  ret.push_back(cur_tkn);
	  cur_tkn.clear();
	  in_quote = false; ''', '''	  ret.push_back(cur_tkn);
	  in_quote = false; '''))]),
    ('o-tok-emptyq', 'bug', 'O06', [(S, TOK, TOK.replace('''	  ret.push_back(cur_tkn);
	  cur_tkn.clear();
	  in_quote = false; ''', '''	  if(cur_tkn.size()) ret.push_back(cur_tkn);
	  cur_tkn.clear();
	  in_quote = false; '''))]),
    ('o-tok-apos', 'bug', 'O06', [(S, TOK, TOK.replace("c == '\\\"'", "c == '\\\"' || c == '\\''"))]),
    ('o-tok-startq', 'bug', 'O06', [(S, TOK, TOK.replace('	  in_quote = true; ', '	  in_quote = true; \n	  cur_tkn.clear();'))]),
    ('o-tok-blankq', 'bug', 'O06', [(S, TOK, TOK.replace('''	if(in_quote) {
	  cur_tkn.push_back(c);
	}''', '''	if(in_quote) {
	  cur_tkn.push_back(' ');
	}'''))]),
    ('o-tok-flag', 'bug', 'O06', [(S, TOK, TOK.replace('	  in_quote = false; \n', ''))]),
    ('o-tok-wrapper', 'bug', 'O06', [(S, 'std::list<std::string> tokens = buildTokenList(s);\n', 'std::list<std::string> tokens = buildTokenList(s);\n    if(!tokens.empty() && tokens.back().empty()) tokens.pop_back();\n')]),
    # ---- key=value
    ('o-kv-lasteq', 'bug', 'O07', [(S, KVKEY, KVKEY.replace('kv.find(', 'kv.rfind('))]),
    ('o-kv-off', 'bug', 'O07', [(S, 'kv.substr(eq_pos + 1)', 'kv.substr(eq_pos)')]),
    ('o-kv-short', 'bug', 'O07', [(S, 'auto arg_p = findOpt(key);', 'auto arg_p = (key.size() == 1) ? findOpt(key[0]) : findOpt(key);')]),
    ('o-kv-semi', 'bug', 'O07', [(S, 'SoDa::split(s, std::string(","))', 'SoDa::split(s, std::string(",;"))')]),
    ('o-kv-noval', 'bug', 'O07', [(S, 'if(eq_pos == std::string::npos) {', 'if(eq_pos == std::string::npos || eq_pos + 1 == kv.size()) {')]),
    ('o-kv-secondeq', 'bug', 'O07', [(S, 'arg_p->setVal(kv.substr(eq_pos + 1));', "arg_p->setVal(kv.substr(eq_pos + 1, kv.find('=', eq_pos + 1) == std::string::npos ? std::string::npos : kv.find('=', eq_pos + 1) - eq_pos - 1));")]),
    # ---- registration
    ('o-reg-default', 'bug', 'O08', [(H, '	*val = def_val; \n', '')]),
    ('o-reg-zero', 'bug', 'O08', [(H, '	*val = T();\n', '')]),
    ('o-reg-flag', 'bug', 'O08', [(H, '	*val = false; \n	val_p = val; ', '	val_p = val; ')]),
    ('o-reg-vec', 'bug', 'O08', [(H, '''	test_func(test_func)
      {
      }
''', '''	test_func(test_func)
      {
	v_vec->clear();
      }
''')]),
    ('o-reg-insert', 'bug', 'O08', [(S, REG, REG.replace('long_map[long_name] = arg_p;', 'long_map.insert(std::make_pair(long_name, arg_p));'))]),
    ('o-reg-short', 'bug', 'O08', [(S, REG, REG.replace('ab_map[ab_name] = arg_p;', 'if(ab_map.find(ab_name) == ab_map.end()) ab_map[ab_name] = arg_p;'))]),
    ('o-reg-nolong', 'bug', 'O08', [(S, REG, REG.replace('long_map[long_name] = arg_p;', 'if(long_name.size() > 1) long_map[long_name] = arg_p;'))]),
    ('o-reg-test', 'bug', 'O02', [(H, '''OptBase(doc_str, err_msg, is_signed, false), val_p(val), test_func(test_func)''', '''OptBase(doc_str, err_msg, is_signed, false), val_p(val), test_func(allGood<T>)''')]),
    ('o-help-skip', 'bug', 'O08', [(S, HELP, '      auto arg_p = ele.second;\n      if(arg_p->isPresentOpt()) continue;\n      if(is_kvp) {\n')]),
    ('o-help-short', 'bug', 'O08', [(S, 'for(auto ele : long_map) {', 'for(auto ele : ab_map) {')]),

    # ---- behaviour kept
    ('o-s-indexloop', 'same', 'O*', [(S, '''    while(!tokens.empty()) {
      std::string tkn = tokens.front();
      tokens.pop_front();
''', '''    for(const auto & tkn : tokens) {
''')]),
    ('o-s-isswitch', 'same', 'O*', [(S, '''    // does it start with -- ? 
    if(tkn[1] == '-') {
      // it starts with -- .  If it isn't at least 3 long, then this is just --
      if(tkn.length() < 3) return 0; 

      // it starts with -- and is followed by something
      return 2; 
    }

    // it starts with - and is followed by something. 
    return 1; 
''', '''    if(tkn[1] != '-') return 1;
    return (tkn.length() >= 3) ? 2 : 0;
''')]),
    ('o-s-helper', 'same', 'O*', [(S, '''	if(sw_len == 1) {
	  if(tkn[1] == 'h') {
	    printHelp(std::cerr); 
	    return false; 
	  }
	  arg_p = findOpt(tkn[1]);
	}
	else {
	  if(tkn == "--help") {
	    printHelp(std::cerr);
	    return false; 
	  }
	  arg_p = findOpt(tkn.substr(2));
	}
''', '''	const bool is_long = (sw_len == 2);
	const bool wants_help = is_long ? (tkn == "--help") : (tkn[1] == 'h');
	if(wants_help) {
	  printHelp(std::cerr); 
	  return false; 
	}
	arg_p = is_long ? findOpt(tkn.substr(2)) : findOpt(tkn[1]);
''')]),
    ('o-s-find', 'same', 'O*', [(S, '''    if(long_map.find(long_name) == long_map.end()) {
      return nullptr;
    }
    return long_map[long_name];''', '''    auto it = long_map.find(long_name);
    return (it == long_map.end()) ? nullptr : it->second;'''), (S, '''    if(ab_map.find(ab_name) == ab_map.end()) {
      return nullptr;
    }
    return ab_map[ab_name];''', '''    auto it = ab_map.find(ab_name);
    if(it != ab_map.end()) return it->second;
    return nullptr;''')]),
    ('o-s-present', 'same', 'O*', [(S, '''    if(long_map.find(long_name) == long_map.end()) {
      return false; 
    }
    return long_map[long_name]->isPresent();''', '''    OptBase_p p = findOpt(long_name);
    return (p != nullptr) && p->isPresent();'''), (S, '''    if(ab_map.find(ab_name) == ab_map.end()) {
      return false; 
    }
    return ab_map[ab_name]->isPresent();''', '''    auto it = ab_map.find(ab_name);
    if(it == ab_map.end()) return false;
    return it->second->isPresent();''')]),
    ('o-s-accept', 'same', 'O*', [(H, OPTSET, '''	T v; 
	setValBase(v, vstr);
	checkVal(v, vstr);
	*val_p = v; 
	return setPresent(); 
'''), (H, '''    protected: 
      T * val_p;
''', '''    protected: 
      void checkVal(const T & v, const std::string & vstr) {
	if (test_func(v)) return;
	throw BadOptValueException(long_name, vstr, err_msg);
      }
      T * val_p;
''')]),
    ('o-s-presfirst', 'same', 'O*', [(H, '''	argvec_p->push_back(v);

	present = true; 	

	return true; ''', '''	setPresent();
	argvec_p->push_back(v);
	return true; ''')]),
    ('o-s-bool', 'same', 'O*', [(H, '''	if(vs.size() == 0) {
	  v = false;
	}
	else if((vs == "TRUE") || (vs[0] == 'T')) {
	  v = true;
	}
	else if((vs == "FALSE") || (vs[0] == 'F')){
	  v = false;
	}
	else {''', '''	const char first = vs.empty() ? 'F' : vs[0];
	if(first == 'T') {
	  v = true;
	}
	else if(first == 'F') {
	  v = false;
	}
	else {''')]),
    ('o-s-stream', 'same', 'O*', [(H, '''	std::stringstream ss(vstr, std::ios::in); 
	ss >> v;
	if(!ss) {
	  throw''', '''	std::istringstream ss(vstr); 
	if(!(ss >> v)) {
	  throw''')]),
    ('o-s-tokens', 'same', 'O*', [(S, TOK, '''    for(size_t i = 0; i < s.size(); i++) {
      const char c = s[i];
      if(c == '\\"') {
	if(in_quote) {
	  ret.push_back(cur_tkn);
	  cur_tkn = "";
	}
	in_quote = !in_quote;
      }
      else if(in_quote || !isspace(c)) {
	cur_tkn += c;
      }
      else if(!cur_tkn.empty()) {
	ret.push_back(cur_tkn);
	cur_tkn = "";
      }
    }
''')]),
    ('o-s-argv', 'same', 'O*', [(S, '''    if(argc < 2) return ret;

    for(int i = 1; i < argc; i++) {
      ret.push_back(std::string(argv[i]));
    }
''', '''    for(int i = 1; i < argc; ++i) {
      ret.emplace_back(argv[i]);
    }
''')]),
    ('o-s-getpos', 'same', 'O*', [(S, '''    if(idx >= pos_arg_vec.size()) return std::string("");
    else return pos_arg_vec[idx]; ''', '''    if(idx < 0 || static_cast<size_t>(idx) >= pos_arg_vec.size()) return "";
    return pos_arg_vec.at(idx); ''')]),
    ('o-s-wrap', 'same', 'O*', [(S, '    return is_kvp ? parseKeyValue(tokens) : parse(tokens);', '    if(is_kvp) {\n      return parseKeyValue(tokens);\n    }\n    bool ok = parse(tokens);\n    return ok;')]),
    ('o-s-kv', 'same', 'O*', [(S, KVSET, '''      if(eq_pos != std::string::npos) {
	std::string val = kv.substr(eq_pos + 1);
	arg_p->setVal(val);
	continue;
      }
      arg_p->setPresent();
''')]),
    ('o-s-kvkey', 'same', 'O*', [(S, KVKEY, '''      const size_t eq_pos = kv.find("=");
      const bool has_val = (eq_pos != std::string::npos);
      const std::string key = has_val ? kv.substr(0, eq_pos) : kv;
'''), (S, 'if(eq_pos == std::string::npos) {', 'if(!has_val) {')]),
    ('o-s-reg', 'same', 'O*', [(S, '''    arg_p->setNames(long_name, ab_name); 
''' + REG, '''    ab_map[ab_name] = arg_p;       
    auto & slot = long_map[long_name];
    slot = arg_p;
    slot->setNames(long_name, ab_name); 
''')]),
    ('o-s-ctor', 'same', 'O*', [(H, '''	*val = def_val; 
''', '''	if(val_p != nullptr) { *val_p = def_val; }
'''), (H, '	*val = false; \n	val_p = val; ', '	val_p = val; \n	*val_p = false;')]),
    ('o-s-help', 'same', 'O*', [(S, '''    for(auto ele : long_map) {
      auto arg_p = ele.second;
''', '''    for(auto it = long_map.begin(); it != long_map.end(); ++it) {
      auto & arg_p = it->second;
''')]),
    ('o-s-last', 'same', 'O*', [(S, PF, '''	const bool flag_only = arg_p->isPresentOpt();
	if(flag_only) {
	  arg_p->setPresent();
	  arg_p.reset();
	}
''')]),
    ('o-s-localflag', 'same', 'O*', [(S, '''  int Options::isSwitch(const std::string & tkn) {
    if(waiting_for_signed) return 0;
''', '''  int Options::isSwitch(const std::string & tkn) {
'''), (S, 'sw_len = isSwitch(tkn);      	', 'sw_len = waiting_for_signed ? 0 : isSwitch(tkn);')]),
    ('o-s-catch', 'same', 'O*', [(S, '''    catch (BadOptValueException & exc) {
      std::cerr << exc.what() << "\\n";
      return false; 
    }
''', '''    catch (const BadOptValueException & exc) {
      std::cerr << exc.what() << std::endl;
      return false; 
    }
''')]),
]
