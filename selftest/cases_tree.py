S = 'src/PropertyTree.cxx'
H = 'include/PropertyTree.hxx'
Y = 'src/PropertyTreeYAML.cxx'
REC = """    if(pathlist.size() == 0) {
      return this; 
    }
    else if(dictionary.find(pathlist.front()) != dictionary.end()) {
	auto child = dictionary[pathlist.front()]; 
	pathlist.pop_front();
	return child->getPropRecursive(pathlist, orig_pathname, throw_exception);
    }
    else {
      if(throw_exception) {
	throw PropertyNotFound(orig_pathname); 
      }
    }

    return nullptr; 
"""
CALL = "    return getPropRecursive(pathlist, pathname, throw_exception); \n"
GETP = """      if(pn == nullptr) {
	if(!throw_exception) return false; 
	throw PropNode::PropertyNotFound(pathname); 
      }
      
      return pn->get<T>(v, throw_exception);
"""
GETN = """	std::stringstream ss(val_string, std::ios_base::in);
	ss >> v; 
	if(ss.fail()) {
	  if(throw_exception) {
	    throw PropertyTree::PropNode::BadPropertyType(getPathName(), typeid(v).name(), val_string);
	      }
	  else return false; 
	}
	return true; 
"""
GETS = """    if(!is_terminal) {
      if(throw_exception) {
	throw BadPropertyType(getPathName(), typeid(v).name(), val_string);
      }
      return false; 
    }
    v = val_string; 
    return true; 
"""
CASES = [
 ('t01-autoins', 'bug', 'T01', [(S, "    else {\n      if(throw_exception) {", "    else if(dictionary[pathlist.front()] == nullptr) {\n      if(throw_exception) {")]),
 ('t01-noempty', 'bug', 'T01', [(S, 'SoDa::split(pathname, ":")', 'SoDa::split(pathname, ":", true)')]),
 ('t01-delims', 'bug', 'T01', [(S, 'SoDa::split(pathname, ":")', 'SoDa::split(pathname, ": ")')]),
 ('t01-back', 'bug', 'T01', [(S, REC, REC.replace('auto child = dictionary[pathlist.front()]', 'auto child = dictionary[pathlist.back()]').replace('dictionary.find(pathlist.front())', 'dictionary.find(pathlist.back())').replace('pop_front', 'pop_back'))]),
 ('t01-child-of-null', 'bug', 'T01', [(S, "return child->getPropRecursive(pathlist, orig_pathname, throw_exception);", "return child->getPropRecursive(pathlist, orig_pathname);")]),
 ('t01-last', 'bug', 'T01', [(S, "if(pathlist.size() == 0) {", "if(pathlist.size() == 0 || is_terminal) {")]),
 ('t01-throwalways', 'bug', 'T01', [(S, "      if(throw_exception) {\n\tthrow PropertyNotFound(orig_pathname); \n      }", "      throw PropertyNotFound(orig_pathname);")]),
 ('t01-from-parent', 'bug', 'T01', [(S, CALL, "    PropNode * from = this;\n    while(from->parent != nullptr) from = from->parent;\n    return from->getPropRecursive(pathlist, pathname, throw_exception); \n")]),
 ('t01-fallback', 'bug', 'T01', [(S, "    return nullptr; \n", "    return (pathlist.size() == 1) && is_terminal ? this : nullptr;\n")]),
 ('t01-consume', 'bug', 'T01', [(S, "	pathlist.pop_front();\n", "	pathlist.pop_front();\n	if(child->is_terminal) dictionary.erase(orig_pathname);\n")]),
 ('t01-s-loop', 'same', 'T01 T02', [(S, CALL, """    PropNode * node = this;
    for(auto & name : pathlist) {
      auto it = node->dictionary.find(name);
      if(it == node->dictionary.end()) {
        if(throw_exception) throw PropertyNotFound(pathname);
        return nullptr;
      }
      node = it->second;
    }
    return node;
""")]),
 ('t01-s-it', 'same', 'T01 T02', [(S, REC, """    if(pathlist.empty()) return this;
    auto it = dictionary.find(pathlist.front());
    if(it == dictionary.end()) {
      if(throw_exception) throw PropertyNotFound(orig_pathname);
      return nullptr;
    }
    pathlist.pop_front();
    return it->second->getPropRecursive(pathlist, orig_pathname, throw_exception);
""")]),
 ('t01-s-count', 'same', 'T01', [(S, "dictionary.find(pathlist.front()) != dictionary.end()", "dictionary.count(pathlist.front()) > 0")]),
 ('t01-s-while', 'same', 'T01', [(S, CALL, """    PropNode * node = this;
    while((node != nullptr) && !pathlist.empty()) {
      std::string name = pathlist.front();
      pathlist.pop_front();
      if(node->dictionary.count(name) == 0) node = nullptr;
      else node = node->dictionary.at(name);
    }
    if((node == nullptr) && throw_exception) throw PropertyNotFound(pathname);
    return node;
""")]),
 ('t01-s-helper', 'same', 'T01', [(S, "  PropertyTree::PropNode * \n  PropertyTree::PropNode::getPropRecursive(", "  static bool hasKey(const std::map<std::string, PropertyTree::PropNode *> & m, const std::string & k) {\n    return m.find(k) != m.end();\n  }\n\n  PropertyTree::PropNode * \n  PropertyTree::PropNode::getPropRecursive("),
                              (S, "dictionary.find(pathlist.front()) != dictionary.end()", "hasKey(dictionary, pathlist.front())")]),
 ('t02-nothrow', 'bug', 'T02', [(H, "return pn->get<T>(v, throw_exception);", "return pn->get<T>(v);")]),
 ('t02-true', 'bug', 'T02', [(H, "	  else return false; \n", "	  else return true; \n")]),
 ('t02-swallow', 'bug', 'T02', [(H, "PropNode * pn = root->getProp(pathname, throw_exception); ", "PropNode * pn = root->getProp(pathname, false); "), (H, "	if(!throw_exception) return false; \n	throw PropNode::PropertyNotFound(pathname); \n", "	return false;\n")]),
 ('t02-wrongtype', 'bug', 'T02', [(H, "throw PropNode::PropertyNotFound(pathname); ", 'throw PropNode::BadPropertyType(pathname, "", ""); '), (H, "root->getProp(pathname, throw_exception); ", "root->getProp(pathname); ")]),
 ('t02-eof', 'bug', 'T02', [(H, "	if(ss.fail()) {", "	if(ss.fail() || !ss.eof()) {")]),
 ('t02-bad', 'bug', 'T02', [(H, "	if(ss.fail()) {", "	if(ss.bad()) {")]),
 ('t02-str-nonterm', 'bug', 'T02', [(H, "    if(!is_terminal) {\n      if(throw_exception) {", "    if(!is_terminal && val_string.empty() && dictionary.empty()) {\n      if(throw_exception) {")]),
 ('t02-str-empty', 'bug', 'T02 T03', [(H, "    if(!is_terminal) {\n      if(throw_exception) {", "    if(!is_terminal || val_string.empty()) {\n      if(throw_exception) {")]),
 ('t02-s-notflag', 'same', 'T02', [(H, GETN, """	std::istringstream in(val_string);
	if(in >> v) return true;
	if(!throw_exception) return false;
	throw BadPropertyType(getPathName(), typeid(v).name(), val_string);
""")]),
 ('t02-s-order', 'same', 'T02', [(H, GETP, """      if(pn != nullptr) return pn->get<T>(v, throw_exception);
      if(throw_exception) throw PropNode::PropertyNotFound(pathname);
      return false;
""")]),
 ('t02-s-tmp', 'same', 'T02 T03', [(H, GETS, """    if(is_terminal) {
      v.assign(val_string);
      return true;
    }
    if(!throw_exception) return false;
    throw BadPropertyType(getPathName(), typeid(v).name(), val_string);
""")]),
 ('t03-word', 'bug', 'T03', [(H, "    v = val_string; \n", "    std::stringstream ss(val_string);\n    ss >> v;\n")]),
 ('t03-line', 'bug', 'T03', [(H, "    v = val_string; \n", "    v = val_string.substr(0, val_string.find('\\t'));\n")]),
 ('t03-squash', 'bug', 'T03', [(H, "    v = val_string; \n", "    size_t b = val_string.find_first_not_of(' ');\n    v = b == std::string::npos ? \"\" : val_string.substr(b);\n")]),
 ('t03-append', 'bug', 'T03', [(H, "    v = val_string; \n", "    v += val_string; \n")]),
]
SEQ = """      for(auto n : node) {
	auto pnp = prop; 
	if(!n.IsScalar()) {
	  pnp = newNode(prop, "", false);
	  prop->prop_list.push_back(pnp);
	}
	fillRecurse(n, pnp);
      }
"""
MAPL = """    for(YAML::const_iterator it = node.begin(); 
	it != node.end(); 
	++it) {
"""
SEQV = """      if(it->second.IsSequence()) {
	auto pnp = newNode(prop, "", false);
	prop->dictionary[it->first.as<std::string>()] = pnp;
	fillRecurse(YAML::Node (it->second), pnp);
      }
"""
MAPV = """      if(it->second.IsMap()) {
	// New node. It will have children
	// that are either maps or lists or terminals.
	auto pnp = newNode(prop, "", false);
	prop->dictionary[it->first.as<std::string>()] = pnp;
	fillRecurse(YAML::Node (it->second), pnp);
      }
"""
SCV = """      if(it->second.IsScalar()) {
	auto pnp = newNode(prop, 
					      it->second.as<std::string>(), 
					      true);
	
	prop->dictionary[it->first.as<std::string>()] = pnp; 
      }
"""
CATCH = """    catch(YAML::BadFile & e) {
      throw PropertyTree::FileNotFound(e.what());
    }
    catch(YAML::Exception & e) {
      throw PropertyTree::BadSyntax(e.what());
    }
"""
CASES += [
 ('t04-front', 'bug', 'T04', [(Y, "prop->prop_list.push_back(pnp); \n      return;", "prop->prop_list.push_front(pnp); \n      return;")]),
 ('t04-fill-prop', 'bug', 'T04', [(Y, MAPV, MAPV.replace("(it->second), pnp)", "(it->second), prop)"))]),
 ('t04-first', 'bug', 'T04', [(Y, SCV, SCV.replace("	prop->dictionary[it->first.as<std::string>()] = pnp; ", "	prop->dictionary.insert(std::make_pair(it->second.as<std::string>(), pnp)); "))]),
 ('t04-empty', 'bug', 'T04', [(Y, "if(it->second.IsScalar()) {", "if(it->second.IsScalar() && (it->second.as<std::string>() != \"\")) {")]),
 ('t04-nonterm', 'bug', 'T04', [(Y, SCV, SCV.replace("true);", "it->second.as<std::string>() != \"\");"))]),
 ('t04-emptymap', 'bug', 'T04', [(Y, "if(it->second.IsMap()) {", "if(it->second.IsMap() && (it->second.size() > 0)) {")]),
 ('t04-seqmap', 'bug', 'T04', [(Y, "	if(!n.IsScalar()) {", "	if(n.IsSequence()) {")]),
 ('t04-seqscalars', 'bug', 'T04', [(Y, SEQ, SEQ.replace("	fillRecurse(n, pnp);", "	if(n.IsScalar() || n.IsMap()) fillRecurse(n, pnp);"))]),
 ('t04-order', 'bug', 'T04', [(Y, "	  prop->prop_list.push_back(pnp);\n	}", "	  prop->prop_list.push_front(pnp);\n	}")]),
 ('t04-break', 'bug', 'T04', [(Y, SEQV, SEQV.replace("fillRecurse(YAML::Node (it->second), pnp);", "fillRecurse(YAML::Node (it->second), pnp);\n	break;"))]),
 ('t04-return', 'bug', 'T04', [(Y, MAPV, MAPV.replace("fillRecurse(YAML::Node (it->second), pnp);", "fillRecurse(YAML::Node (it->second), pnp);\n	if(pnp->dictionary.empty()) return;"))]),
 ('t04-once', 'bug', 'T04', [(Y, SCV, SCV.replace("	prop->dictionary[it->first.as<std::string>()] = pnp; ", "	if(prop->parent == nullptr || prop->dictionary.size() < 2) prop->dictionary[it->first.as<std::string>()] = pnp; "))]),
 ('t04-catch', 'bug', 'T04', [(Y, CATCH, "    catch(YAML::Exception & e) {\n      throw PropertyTree::BadSyntax(e.what());\n    }\n")]),
 ('t04-swallow', 'bug', 'T04', [(Y, CATCH, "    catch(YAML::BadFile & e) {\n      throw PropertyTree::FileNotFound(e.what());\n    }\n    catch(YAML::Exception & e) {\n    }\n")]),
 ('t04-s-for', 'same', 'T04', [(Y, MAPL, "    for(auto it : node) {\n"), (Y, MAPV, MAPV.replace('it->', 'it.')), (Y, SCV, SCV.replace('it->', 'it.')), (Y, SEQV, SEQV.replace('it->', 'it.'))]),
 ('t04-s-elseif', 'same', 'T04', [(Y, SCV, "      else " + SCV.lstrip()), (Y, SEQV, "      else " + SEQV.lstrip())]),
 ('t04-s-merge', 'same', 'T04', [(Y, MAPV, MAPV.replace("it->second.IsMap()", "it->second.IsMap() || it->second.IsSequence()")), (Y, SEQV, "")]),
 ('t04-s-key', 'same', 'T04', [(Y, SEQV, SEQV.replace("prop->dictionary[it->first.as<std::string>()] = pnp;", "std::string key = it->first.as<std::string>();\n	prop->dictionary[key] = pnp;"))]),
 ('t04-s-fillfirst', 'same', 'T04', [(Y, MAPV, """      if(it->second.IsMap()) {
	auto pnp = newNode(prop, "", false);
	fillRecurse(YAML::Node (it->second), pnp);
	prop->dictionary[it->first.as<std::string>()] = pnp;
      }
""")]),
 ('t04-s-seqinline', 'same', 'T04', [(Y, SEQ, """      for(auto n : node) {
	if(n.IsScalar()) {
	  prop->prop_list.push_back(newNode(prop, n.as<std::string>(), true));
	  continue;
	}
	auto sub = newNode(prop, "", false);
	prop->prop_list.push_back(sub);
	fillRecurse(n, sub);
      }
""")]),
 ('t04-s-helper', 'same', 'T04', [(Y, "  void PropertyTreeYAML::fillRecurse(", """  static PropertyTree::PropNode * makeNode(PropertyTree::PropNode * parent, const std::string & text, bool leaf) {
    return new PropertyTree::PropNode(parent, text, leaf);
  }

  void PropertyTreeYAML::fillRecurse("""), (Y, MAPV, MAPV.replace('newNode(prop, "", false)', 'makeNode(prop, "", false)'))]),
 ('t05-keys-nonterm', 'bug', 'T05', [("src/PropertyTree.cxx", 'keys.push_back(a.first); ', 'if(!a.second->is_terminal) keys.push_back(a.first); ')]),
 ('t05-keys-cap', 'bug', 'T05', [("src/PropertyTree.cxx", 'keys.push_back(a.first); ', 'if(keys.size() < 64) keys.push_back(a.first); ')]),
 ('t05-list-dict', 'bug', 'T05', [("src/PropertyTree.cxx", '    return prop_list; ', '    std::list<PropNode *> l; if(dictionary.empty()) l = prop_list; return l; ')]),
 ('t05-path-text', 'bug', 'T05', [("src/PropertyTree.cxx", 'if(a.second == this) {', 'if(a.second->val_string == val_string) {')]),
 ('t05-path-colon', 'bug', 'T05', [("src/PropertyTree.cxx", 'if(parent->parent != nullptr) ret += ":";', 'if(!ret.empty()) ret += ":";')]),
 ('t05-dump-deep', 'bug', 'T05', [("src/PropertyTree.cxx", '\t  v.second->dump(os, indent + "  ");', '\t  if(indent.size() < 8) v.second->dump(os, indent + "  ");')]),
 ('t05-dump-one', 'bug', 'T05', [("src/PropertyTree.cxx", 'if(!prop_list.empty()) {', 'if(prop_list.size() > 1) {')]),
 ('t05-s-keys-it', 'same', 'T05', [("src/PropertyTree.cxx", '    std::list<std::string> keys; \n    for(auto a : dictionary) {\n      keys.push_back(a.first); \n    }\n    return keys; ', '    std::list<std::string> keys; \n    for(auto it = dictionary.begin(); it != dictionary.end(); ++it) {\n      keys.emplace_back(it->first); \n    }\n    return keys; ')]),
 ('t05-s-keys-insert', 'same', 'T05', [("src/PropertyTree.cxx", '    std::list<std::string> keys; \n    for(auto a : dictionary) {\n      keys.push_back(a.first); \n    }\n    return keys; ', '    std::list<std::string> keys; \n    for(const auto & a : dictionary) keys.insert(keys.end(), a.first); \n    return keys; ')]),
 ('t05-s-keys-rev', 'same', 'T05', [("src/PropertyTree.cxx", '    std::list<std::string> keys; \n    for(auto a : dictionary) {\n      keys.push_back(a.first); \n    }\n    return keys; ', '    std::list<std::string> keys; \n    for(auto it = dictionary.rbegin(); it != dictionary.rend(); ++it) keys.push_front(it->first); \n    return keys; ')]),
 ('t05-s-list-copy', 'same', 'T05', [("src/PropertyTree.cxx", '    return prop_list; ', '    return std::list<PropNode *>(prop_list.begin(), prop_list.end()); ')]),
 ('t05-s-list-loop', 'same', 'T05', [("src/PropertyTree.cxx", '    return prop_list; ', '    std::list<PropNode *> ret; for(auto p : prop_list) ret.push_back(p); return ret; ')]),
 ('t05-s-list-var', 'same', 'T05', [("src/PropertyTree.cxx", '    return prop_list; ', '    std::list<PropNode *> ret = prop_list; return ret; ')]),
 ('t05-s-path-early', 'same', 'T05', [("src/PropertyTree.cxx", '    std::string ret;\n    if(parent != nullptr) {\n      ret = parent->getPathName();\n      // an element of a list goes by the name of the list\n      for(const auto & a : parent->dictionary) {\n\tif(a.second == this) {\n\t  if(parent->parent != nullptr) ret += ":";\n\t  ret += a.first;\n\t  break; \n\t}\n      }\n    }\n    \n    return ret; ', '    if(parent == nullptr) return "";\n    std::string ret = parent->getPathName();\n    for(auto it = parent->dictionary.begin(); it != parent->dictionary.end(); ++it) {\n      if(it->second != this) continue;\n      return (parent->parent == nullptr) ? it->first : ret + ":" + it->first;\n    }\n    return ret; ')]),
 ('t05-s-path-name', 'same', 'T05', [("src/PropertyTree.cxx", '    std::string ret;\n    if(parent != nullptr) {\n      ret = parent->getPathName();\n      // an element of a list goes by the name of the list\n      for(const auto & a : parent->dictionary) {\n\tif(a.second == this) {\n\t  if(parent->parent != nullptr) ret += ":";\n\t  ret += a.first;\n\t  break; \n\t}\n      }\n    }\n    \n    return ret; ', '    std::string name;\n    bool named = false;\n    if(parent == nullptr) return name;\n    for(const auto & a : parent->dictionary) {\n      if(a.second == this && !named) { name = a.first; named = true; }\n    }\n    std::string up = parent->getPathName();\n    if(!named) return up;\n    return parent->parent ? up + ":" + name : up + name; ')]),
 ('t05-s-path-up', 'same', 'T05', [("src/PropertyTree.cxx", '    std::string ret;\n    if(parent != nullptr) {\n      ret = parent->getPathName();\n      // an element of a list goes by the name of the list\n      for(const auto & a : parent->dictionary) {\n\tif(a.second == this) {\n\t  if(parent->parent != nullptr) ret += ":";\n\t  ret += a.first;\n\t  break; \n\t}\n      }\n    }\n    \n    return ret; ', '    std::string ret;\n    bool first = true;\n    for(const PropNode * n = this; n->parent != nullptr; n = n->parent) {\n      for(const auto & a : n->parent->dictionary) {\n\tif(a.second == n) {\n\t  ret = first ? a.first : a.first + ":" + ret;\n\t  first = false;\n\t  break;\n\t}\n      }\n    }\n    return ret; ')]),
 ('t05-s-dump-always', 'same', 'T05', [("src/PropertyTree.cxx", '    if(!prop_list.empty()) {\n      os << "<<<PROPLIST>>>\\n";      \n      for(auto v : prop_list) {\n\tif(v->is_terminal) {\n\t  os << indent << v->val_string << "\\n";\n\t}\n\telse {\n\t  v->dump(os, indent + "  ");\n\t}\n      }\n    }\n', '    if(prop_list.size() != 0) os << "<<<PROPLIST>>>" << std::endl;\n    for(auto v : prop_list) {\n      v->dump(os, v->is_terminal ? indent : indent + "  ");\n    }\n')]),
 ('t05-s-dump-deeper', 'same', 'T05', [("src/PropertyTree.cxx", '\tos << indent << v.first << ":  "; \n\tif(v.second->is_terminal) {\n\t  os << v.second->val_string << "\\n";\n\t}\n\telse {\n\t  os << "\\n";\n\t  v.second->dump(os, indent + "  ");\n\t}\n', '\tconst std::string deeper = indent + "  ";\n\tos << indent << v.first << ":  "; \n\tif(!v.second->is_terminal) {\n\t  os << "\\n";\n\t  v.second->dump(os, deeper);\n\t  continue;\n\t}\n\tos << v.second->val_string << "\\n";\n')]),
 ('t05-s-dump-ref', 'same', 'T05', [("src/PropertyTree.cxx", '      for(auto v : prop_list) {\n\tif', '      for(std::list<PropNode *>::const_iterator it = prop_list.begin(); it != prop_list.end(); it++) {\n\tconst PropNode * c = *it; PropNode * v = *it; (void) c;\n\tif')]),
]
