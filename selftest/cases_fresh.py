"""Larger refactorings, written from the sources alone: nothing may be reported."""
F = 'src/Format.cxx'
B = 'src/Barrier.cxx'
M = 'include/MailBox.hxx'
T = 'src/PropertyTree.cxx'
O = 'src/Options.cxx'

CASES = [
    ('fr-scan-while', 'same', 'F01 F02 F03 F04 F06 G01', [
        (F, 'for(auto c : fmt_string) {\n      switch', 'std::string::const_iterator it = fmt_string.cbegin();\n    while(it != fmt_string.cend()) {\n      const char c = *it++;\n      switch'),
        (F, 'format_string_segments.push_back(FmtStringSeg(cur_str));\n\t    cur_str.clear();', 'format_string_segments.emplace_back(cur_str);\n\t    cur_str = "";')]),
    ('fr-scan-helper', 'same', 'F01 F02 F03 F04 F06 G01', [
        (F, '  void Format::initialScan(', '  static unsigned int digitOf(char c) {\n    return (unsigned int) (c - \'0\');\n  }\n\n  void Format::initialScan('),
        (F, "cur_fldnum = (unsigned int) (c - '0');", 'cur_fldnum = digitOf(c);'),
        (F, "cur_fldnum = cur_fldnum * 10 + ((unsigned int) (c - '0'));", 'cur_fldnum = cur_fldnum * 10 + digitOf(c);')]),
    ('fr-scan-flush', 'same', 'F01 F02 F03 F04 F06 G01', [
        (F, "    std::string cur_str;\n    unsigned int cur_fldnum = 0;", "    std::string cur_str;\n    auto flush = [this, &cur_str]() {\n      if(cur_str.empty()) return;\n      format_string_segments.push_back(FmtStringSeg(cur_str));\n      cur_str.clear();\n    };\n    unsigned int cur_fldnum = 0;"),
        (F, "if(!cur_str.empty()) {\n\t    format_string_segments.push_back(FmtStringSeg(cur_str));\n\t    cur_str.clear();\n\t  }", "flush();"),
        (F, "if(!cur_str.empty()) {\n\tformat_string_segments.push_back(FmtStringSeg(cur_str));\n      }", "flush();")]),
    ('fr-addi-index', 'same', 'F05 F08 F11 F06 G01', [
        (F, "std::reverse(vstr.begin(), vstr.end());\n      \n      std::string newstr;\n      int i = 0; \n      for(auto c : vstr) {\n\tif((i == 3) && (c != '-')) {\n\t  newstr = sep + newstr;\n\t  i = 0; \n\t}\n\tnewstr = c + newstr;\n\ti++;\n      }",
         "std::string newstr;\n      const size_t first = (v < 0) ? 1 : 0;\n      for(size_t p = 0; p < vstr.size(); p++) {\n\tif((p > first) && ((vstr.size() - p) % 3 == 0)) newstr.push_back(sep);\n\tnewstr.push_back(vstr[p]);\n      }")]),
    ('fr-addi-insert', 'same', 'F05 F08 F11 F06 G01', [
        (F, "std::reverse(vstr.begin(), vstr.end());\n      \n      std::string newstr;\n      int i = 0; \n      for(auto c : vstr) {\n\tif((i == 3) && (c != '-')) {\n\t  newstr = sep + newstr;\n\t  i = 0; \n\t}\n\tnewstr = c + newstr;\n\ti++;\n      }",
         "std::string newstr(vstr);\n      const int first = (v < 0) ? 1 : 0;\n      for(int p = (int) newstr.size() - 3; p > first; p -= 3) {\n\tnewstr.insert(p, 1, sep);\n      }")]),
    ('fr-addi-tostring', 'same', 'F05 F08 F11 F06 G01', [
        (F, "std::stringstream pre_ss;\n      pre_ss << v;\n      std::string vstr(pre_ss.str());", "std::string vstr = std::to_string(v);")]),
    ('fr-addi-setw', 'same', 'F05 F08 F11 F06 G01', [
        (F, "if(w != 0) {\n\tss << std::setw(w); \n      }\n      ss << v;", "ss << std::setw(w) << v;"),
        (F, "if(w != 0) {\n\tss << std::setw(w);\n      }\n      ss << newstr;", "ss.width(w);\n      ss << newstr;")]),
    ('fr-addu-helper', 'same', 'F05 F08 F11 F06 G01', [
        (F, "  Format & Format::addU(unsigned long v", "  static std::string groupDigits(const std::string & s, char sep, unsigned int n, int lim) {\n    std::string rev(s);\n    std::reverse(rev.begin(), rev.end());\n    std::string ret;\n    int cc = 0;\n    int i = 0;\n    for(char c : rev) {\n      if((i == n) && (cc < lim)) {\n\tret = sep + ret;\n\ti = 0;\n      }\n      ret = c + ret;\n      i++;\n      cc++;\n    }\n    return ret;\n  }\n\n  Format & Format::addU(unsigned long v"),
        (F, "std::stringstream new_ss;\n      int i = 0;\n      std::reverse(valstr.begin(), valstr.end());\n      std::string newstr; \n      \n      int cc = 0; \n      // leave the padding alone\n      int sep_lim = valstr.find_last_not_of(' ') + 1;", "int sep_lim = valstr.size() - valstr.find_first_not_of(' ');"),
        (F, "for(char c : valstr) {\n\tif((i == group_count) && (cc < sep_lim)) {\n\t  newstr = sep + newstr; \n\t  i = 0; \n\t}\n\tnewstr = c + newstr;\n\ti++; \n\tcc++;\n      }\n      result = prefix + newstr;", "result = prefix + groupDigits(valstr, sep, group_count, sep_lim);")]),
    ('fr-addu-base', 'same', 'F05 F08 F11 F06 G01', [
        (F, "bool not_hex = true; \n    bool not_oct = true;", "int lead = 0;"),
        (F, "not_hex = false;", "lead = 2;"), (F, "not_oct = false;", "lead = 1;"),
        (F, "if(!not_hex) {\n\tsep_lim -= 2; \n      }\n      else if(!not_oct) {\n\tsep_lim -= 1; \n      }", "sep_lim -= lead;")]),
    ('fr-tohex-direct', 'same', 'F05 F08 F11 F06 G01', [
        (F, "std::string ret;\n    std::stringstream ss;\n    if(uppercase) {\n      ss << std::uppercase; \n    }\n    ss << \"0x\"; \n    ss << std::right << std::setfill('0');\n    ss << std::setw(width) << std::hex  << v;\n    ret = ss.str();\n    \n    return ret;",
         "std::ostringstream ss;\n    ss << \"0x\" << (uppercase ? std::uppercase : std::nouppercase)\n       << std::setfill('0') << std::setw(width) << std::hex << std::right << v;\n    return ss.str();")]),
    ('fr-adds-append', 'same', 'F05 F06 F11 G01', [
        (F, "std::string fstr;\n    if(width < 0)  {\n      for(auto c : v) {\n\tfstr.push_back(c);\n      }\n      int spaces = (- width) - v.size();\n      for(int i = 0; i < spaces; i++) {\n\tfstr.push_back(' ');\n      }\n      insertField(fstr);      \n    }",
         "std::string fstr;\n    if(width < 0)  {\n      const long want = - (long) width;\n      fstr = v;\n      if((long) v.size() < want) fstr.append(want - v.size(), ' ');\n      insertField(fstr);      \n    }")]),
    ('fr-adds-padding', 'same', 'F05 F06 F11 G01', [
        (F, "int spaces = width - v.size();\n      for(int i = 0; i < spaces; i++) {\n\tfstr.push_back(' ');\n      }\n      for(auto c : v) {\n\tfstr.push_back(c);\n      }\n      insertField(fstr);", "int spaces = width - (int) v.size();\n      insertField(std::string(spaces > 0 ? spaces : 0, ' ') + v);")]),
    ('fr-adds-setw', 'same', 'F05 F06 F11 G01', [
        (F, "int spaces = width - v.size();\n      for(int i = 0; i < spaces; i++) {\n\tfstr.push_back(' ');\n      }\n      for(auto c : v) {\n\tfstr.push_back(c);\n      }\n      insertField(fstr);", "std::ostringstream ss;\n      ss << std::setw(width) << v;\n      insertField(ss.str());")]),
    ('fr-addf-ifs', 'same', 'F05 F07 F11 F06 F09 G01', [
        (F, "if(width) ss << std::setw(width); \n      ss << std::fixed", "ss << std::setw(width) << std::fixed"),
        (F, "ss.unsetf(std::ios::fixed | std::ios::scientific);\n      if(width) ss << std::setw(width);", "ss << std::defaultfloat << std::setw(width);")]),
    ('fr-addf-eng-split', 'same', 'F05 F07 F11 F06 G01', [
        (F, "  Format & Format::addF(double v, char fmt", "  static void putExponent(std::ostream & ss, int exp_val) {\n    ss << std::setw(1) << 'e'\n       << std::setfill(' ') << std::left;\n    ss << ((exp_val < 0) ? '-' : '+') << std::setw(2) << std::abs(exp_val);\n  }\n\n  Format & Format::addF(double v, char fmt"),
        (F, "ss << std::setw(1) << 'e'\n\t   << std::setfill(' ') << std::left; \n\tif(exp_val < 0) {\n\t  ss << '-' << std::setw(2) << -exp_val;\n\t}\n\telse {\n\t  ss << '+'  << std::setw(2) << exp_val;\t  \n\t}", "putExponent(ss, exp_val);")]),
    ('fr-addf-fill', 'same', 'F05 F07 F11 F06 G01', [
        (F, "while(fill_wid > 0) {\n\t  ss << ' ';\n\t  fill_wid--;\n\t}", "if(fill_wid > 0) ss << std::string(fill_wid, ' ');")]),
    ('fr-addf-sepchar', 'same', 'F05 F07 F11 F06 G01', [
        (F, "std::replace(field.begin(), field.end(), '.', separator);", "for(auto & c : field) {\n      if(c == '.') c = separator;\n    }")]),
    ('fr-addf-sepfind', 'same', 'F05 F07 F11 F06 G01', [
        (F, "std::replace(field.begin(), field.end(), '.', separator);", "auto dot = field.find('.');\n    if(dot != std::string::npos) field[dot] = separator;")]),
    ('fr-insert-index', 'same', 'F01 F03 F04 F06 G01', [
        (F, "for (auto & fld : format_string_segments) {\n      if((fld.seg_type == FmtStringSeg::FMT_VAL) && (fld.idx == cur_arg_number)) {\n\tfld.val = s; \n\tfld.seg_type = FmtStringSeg::LITERAL; \n      }\n    }\n\n    cur_arg_number++;",
         "const auto which = cur_arg_number++;\n    std::for_each(format_string_segments.begin(), format_string_segments.end(), [&](FmtStringSeg & fld) {\n      if(fld.seg_type != FmtStringSeg::FMT_VAL) return;\n      if(fld.idx != which) return;\n      fld.seg_type = FmtStringSeg::LITERAL;\n      fld.val = s;\n    });")]),
    ('fr-str-stream', 'same', 'F01 F03 F04 F06 E02 G01', [
        (F, "std::string ret_string;\n    // assemble the string, warts and all\n    int unfilled_count = 0;", "std::ostringstream out;\n    bool missing = false;"),
        (F, "ret_string = ret_string + fld.val;", "out << fld.val;"),
        (F, "std::stringstream ss;\n\tss << '%' << fld.idx;\n\tret_string = ret_string + ss.str();\n\tunfilled_count++;", "out << '%' << fld.idx;\n\tmissing = true;"),
        (F, "if(check_for_filled_out && (unfilled_count != 0)) {", "const std::string ret_string = out.str();\n    if(missing && check_for_filled_out) {")]),
    ('fr-bar-loop', 'same', 'B01 B02 C01 E01 F06 G01', [
        (B, "bool is_ok = cv.wait_for(lock, \n\t\t\t\t timeout,\n\t\t\t\t [old_barrier_count, this]() {\n\t\t\t\t   return (old_barrier_count != barrier_count) || corrupted; \n\t\t\t\t });",
         "const auto deadline = std::chrono::steady_clock::now() + timeout;\n\tauto advanced = [&]() { return corrupted || (barrier_count != old_barrier_count); };\n\tbool is_ok = advanced();\n\twhile(!is_ok) {\n\t  if(cv.wait_until(lock, deadline) == std::cv_status::timeout) {\n\t    is_ok = advanced();\n\t    break;\n\t  }\n\t  is_ok = advanced();\n\t}")]),
    ('fr-bar-split', 'same', 'B01 B02 C01 E01 F06 G01', [
        (B, "bool old_corrupt = corrupted; \n\t  if(old_corrupt) {\n\t    throw Barrier::Corrupt(*this);\n\t  }\n\t  else {", "{"),
        (B, "waiting++; \n      if(waiting == num_waiters) {\n\t// reset -- nobody will be waiting anymore\n\twaiting = 0;\n\tbarrier_count++;", "if(++waiting >= num_waiters) {\n\tbarrier_count += 1;\n\twaiting = 0;")]),
    ('fr-bar-early', 'same', 'B01 B02 C01 E01 F06 G01', [
        (B, "cv.notify_all();\n      }\n      else {", "cv.notify_all();\n\treturn;\n      }\n      {"),
        (B, "const std::chrono::duration<long, std::milli> & timeout) {\n    if(timeout.count() == 0) {\n      return wait(std::chrono::seconds(3600 * 24 * 1000));\n    }", "const std::chrono::duration<long, std::milli> & timeout) {\n    if(timeout == timeout.zero()) {\n      wait(std::chrono::hours(24 * 1000));\n      return;\n    }")]),
    ('fr-mb-find', 'same', 'M01 M02 M03 M04 C01 R01 G01 E01 F06', [
        (M, "if(message_queues.count(idx) == 0) {\n\tthrow MissingSubscriber(getName(), \"get()\", idx);\n      }\n      return message_queues[idx];", "auto it = message_queues.find(idx);\n      if(it != message_queues.end()) return it->second;\n      throw MissingSubscriber(getName(), \"get()\", idx);"),
        (M, "while(!mqueue.empty()) mqueue.pop();\n    }", "std::queue<std::shared_ptr<T>>().swap(mqueue);\n    }")]),
    ('fr-mb-take', 'same', 'M01 M02 M03 M04 C01 R01 G01 E01 F06', [
        (M, "auto & mqueue = getQueue(subs); \n      if(mqueue.empty()) {\n\treturn nullptr;\n      }\n      else {\n\n\tauto ret = mqueue.front();\n\tmqueue.pop();\n\treturn ret;\n      }", "std::shared_ptr<T> ret;\n      auto & mqueue = getQueue(subs);\n      if(!mqueue.empty()) {\n\tret.swap(mqueue.front());\n\tmqueue.pop();\n      }\n      return ret;"),
        (M, "if(mqueue.empty()) {\n\treturn 0;\n      }\n      else {\n\treturn mqueue.size();\n      }", "return static_cast<unsigned int>(mqueue.size());")]),
    ('fr-mb-put', 'same', 'M01 M02 M03 M04 C01 R01 G01 E01 F06', [
        (M, "int omit_key = subscription_counter; // points past last allocted subscription id\n      if(subs != nullptr) {\n\tomit_key = subs->getIndex(this);\n      }\n      for(auto & q : message_queues) {\n\tif(q.first != omit_key) {\n\t  q.second.push(msg);\n\t}\n      }",
         "const bool anonymous = !subs;\n      const int sender = anonymous ? -1 : subs->getIndex(this);\n      for(auto it = message_queues.begin(); it != message_queues.end(); ++it) {\n\tif(!anonymous && (it->first == sender)) continue;\n\tit->second.emplace(msg);\n      }")]),
    ('fr-mb-min', 'same', 'M01 M02 M03 M04 C01 R01 G01 E01 F06', [
        (M, "unsigned int ret = ~0;\n      for(auto q : message_queues) {\n\tauto qs = q.second.size();\n\tret = (ret < qs) ? ret : qs; \n      }\n      return ret;", "unsigned int least = std::numeric_limits<unsigned int>::max();\n      for(const auto & [id, q] : message_queues) {\n\tleast = std::min<unsigned int>(least, q.size());\n      }\n      return least;")]),
    ('fr-mb-subscribe', 'same', 'M01 M02 M03 M04 C01 R01 G01 E01 F06', [
        (M, "message_queues[subscription_counter] = std::queue<std::shared_ptr<T>>();\n      \n      subscription_counter++;\n      return ret;", "message_queues.emplace(subscription_counter++, std::queue<std::shared_ptr<T>>());\n      return ret;")]),
    ('fr-tree-iter', 'same', 'T01 T02 T03 F06 G01 E01', [
        (T, "std::list<std::string> pathlist = SoDa::split(pathname, \":\"); \n    return getPropRecursive(pathlist, pathname, throw_exception);", "PropNode * cur = this;\n    for(const auto & key : SoDa::split(pathname, \":\")) {\n      auto it = cur->dictionary.find(key);\n      if(it == cur->dictionary.end()) {\n\tif(throw_exception) throw PropertyNotFound(pathname);\n\treturn nullptr;\n      }\n      cur = it->second;\n    }\n    return cur;")]),
    ('fr-tree-lookup', 'same', 'T01 T02 T03 F06 G01 E01 R01', [
        (T, "if(pathlist.size() == 0) {\n      return this; \n    }\n    else if(dictionary.find(pathlist.front()) != dictionary.end()) {\n\tauto child = dictionary[pathlist.front()]; \n\tpathlist.pop_front();\n\treturn child->getPropRecursive(pathlist, orig_pathname, throw_exception);\n    }\n    else {\n      if(throw_exception) {\n\tthrow PropertyNotFound(orig_pathname); \n      }\n    }\n\n    return nullptr;",
         "if(pathlist.empty()) return this;\n    const auto found = dictionary.find(pathlist.front());\n    if(found == dictionary.cend()) {\n      if(!throw_exception) return nullptr;\n      throw PropertyNotFound(orig_pathname);\n    }\n    pathlist.erase(pathlist.begin());\n    return found->second->getPropRecursive(pathlist, orig_pathname, throw_exception);")]),
    ('fr-tree-dump', 'same', 'T05 F06 G01', [
        (T, 'namespace SoDa {', '#include <algorithm>\n#include <iterator>\nnamespace SoDa {'),
        (T, "for(auto v : prop_list) {\n\tif(v->is_terminal) {\n\t  os << indent << v->val_string << \"\\n\";\n\t}\n\telse {\n\t  v->dump(os, indent + \"  \");\n\t}\n      }", "for(PropNode * v : prop_list) {\n\tv->dump(os, v->is_terminal ? indent : indent + \"  \");\n      }"),
        (T, "for(auto a : dictionary) {\n      keys.push_back(a.first); \n    }\n    return keys;", "std::transform(dictionary.begin(), dictionary.end(), std::back_inserter(keys), [](const std::pair<const std::string, PropNode *> & a) { return a.first; });\n    return keys;")]),
    ('fr-tree-path', 'same', 'T05 F06 G01 T02', [
        (T, 'namespace SoDa {', '#include <algorithm>\n#include <iterator>\nnamespace SoDa {'),
        (T, "std::string ret;\n    if(parent != nullptr) {\n      ret = parent->getPathName();\n      // an element of a list goes by the name of the list\n      for(const auto & a : parent->dictionary) {\n\tif(a.second == this) {\n\t  if(parent->parent != nullptr) ret += \":\";\n\t  ret += a.first;\n\t  break; \n\t}\n      }\n    }\n    \n    return ret;",
         "if(parent == nullptr) return \"\";\n    const std::string above = parent->getPathName();\n    auto me = std::find_if(parent->dictionary.begin(), parent->dictionary.end(), [this](const std::pair<const std::string, PropNode *> & a) { return a.second == this; });\n    if(me == parent->dictionary.end()) return above;\n    return (parent->parent == nullptr) ? me->first : above + \":\" + me->first;")]),
    ('fr-opt-lookup', 'same', 'O01 O02 O03 O04 O05 O06 O07 O08 G01 E01 F06', [
        (O, "if(long_map.find(long_name) == long_map.end()) {\n      return nullptr;\n    }\n    return long_map[long_name];", "auto it = long_map.find(long_name);\n    return (it == long_map.end()) ? OptBase_p() : it->second;"),
        (O, "if(ab_map.find(ab_name) == ab_map.end()) {\n      return false; \n    }\n    return ab_map[ab_name]->isPresent();", "OptBase_p opt = findOpt(ab_name);\n    return opt && opt->isPresent();")]),
    ('fr-opt-parse-fn', 'same', 'O01 O02 O03 O04 O05 O06 O07 O08 G01 E01 F06', [
        (O, "if(sw_len == 1) {\n\t  if(tkn[1] == 'h') {\n\t    printHelp(std::cerr); \n\t    return false; \n\t  }\n\t  arg_p = findOpt(tkn[1]);\n\t}\n\telse {\n\t  if(tkn == \"--help\") {\n\t    printHelp(std::cerr);\n\t    return false; \n\t  }\n\t  arg_p = findOpt(tkn.substr(2));\n\t}",
         "const bool wants_help = (sw_len == 1) ? (tkn[1] == 'h') : (tkn == \"--help\");\n\tif(wants_help) {\n\t  printHelp(std::cerr);\n\t  return false;\n\t}\n\targ_p = (sw_len == 1) ? findOpt(tkn[1]) : findOpt(tkn.substr(2));")]),
    ('fr-opt-vector', 'same', 'O01 O02 O03 O04 O05 O06 O07 O08 G01 E01 F06', [
        (O, "while(!tokens.empty()) {\n      std::string tkn = tokens.front();\n      tokens.pop_front();", "for(const std::string & tkn : tokens) {")]),
    ('fr-opt-switch', 'same', 'O01 O02 O03 O04 O05 O06 O07 O08 G01 E01 F06', [
        (O, "if(tkn.length() < 2) return 0;\n\n    \n    // does it start with anything other than - ? \n    if(tkn[0] != '-') {\n      return 0; \n    }\n    \n    // it starts with a -.  Is that all there is? \n    if(tkn.length() < 2) return 0;\n    \n    // it starts with a -. It is at least two instrs long.\n    // does it start with -- ? \n    if(tkn[1] == '-') {\n      // it starts with -- .  If it isn't at least 3 long, then this is just --\n      if(tkn.length() < 3) return 0; \n\n      // it starts with -- and is followed by something\n      return 2; \n    }\n\n    // it starts with - and is followed by something. \n    return 1;",
         "if(tkn.compare(0, 2, \"--\") == 0) return (tkn.size() > 2) ? 2 : 0;\n    return ((tkn.size() > 1) && (tkn.front() == '-')) ? 1 : 0;")]),
    ('fr-opt-kv', 'same', 'O01 O02 O03 O04 O05 O06 O07 O08 G01 E01 F06', [
        (O, "if(eq_pos == std::string::npos) {\n\targ_p->setPresent();\n      }\n      else {\n\targ_p->setVal(kv.substr(eq_pos + 1));\n      }", "if(eq_pos != std::string::npos) arg_p->setVal(std::string(kv, eq_pos + 1));\n      else arg_p->setPresent();"),
        (O, "for(auto kv_a : l_kvp) {\n      auto kv = SoDa::squashSpaces(kv_a);", "for(auto item = l_kvp.begin(); item != l_kvp.end(); item++) {\n      const std::string kv(SoDa::squashSpaces(*item));")]),
    ('fr-opt-tok', 'same', 'O01 O02 O03 O04 O05 O06 O07 O08 G01 E01 F06', [
        (O, "if(isspace(c)) {\n\tif(in_quote) {\n\t  cur_tkn.push_back(c);\n\t}\n\telse if(cur_tkn.length() > 0) {\n\t  ret.push_back(cur_tkn);\n\t  cur_tkn.clear();\n\t}\n      }\n      else if(c == '\\\"') {\n\tif(in_quote) {\n\t  // push the token. \n\t  ret.push_back(cur_tkn);\n\t  cur_tkn.clear();\n\t  in_quote = false; \n\t}\n\telse {\n\t  // start of a quoted string...\n\t  in_quote = true; \n\t}\n      }\n      else {\n\tcur_tkn.push_back(c);\n      }",
         "if(c == '\\\"') {\n\tif(in_quote) {\n\t  ret.push_back(std::move(cur_tkn));\n\t  cur_tkn = std::string();\n\t}\n\tin_quote = !in_quote;\n\tcontinue;\n      }\n      if(in_quote || !isspace(c)) {\n\tcur_tkn += c;\n\tcontinue;\n      }\n      if(!cur_tkn.empty()) {\n\tret.emplace_back(cur_tkn);\n\tcur_tkn.clear();\n      }")]),
    ('fr-opt-pos', 'same', 'O01 O02 O03 O04 O05 O06 O07 O08 G01 E01 F06', [
        (O, "if(idx >= pos_arg_vec.size()) return std::string(\"\");\n    else return pos_arg_vec[idx];", "const bool there = (idx >= 0) && (idx < (int) pos_arg_vec.size());\n    return there ? pos_arg_vec.at(idx) : \"\";"),
        (O, "std::list<std::string> ret; \n    if(argc < 2) return ret;\n\n    for(int i = 1; i < argc; i++) {\n      ret.push_back(std::string(argv[i]));\n    }\n    \n    return ret;", "if(argc < 2) return {};\n    return std::list<std::string>(argv + 1, argv + argc);")]),
]
