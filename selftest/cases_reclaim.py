MB = 'include/MailBox.hxx'
TC = 'src/PropertyTree.cxx'
TH = 'include/PropertyTree.hxx'
OLDQ = '    std::map<int, std::queue<std::shared_ptr<T>>> message_queues; \n'
PUSH = '	  q.second.push(msg);\n'
NODE = '''    auto ret = std::make_shared<PropNode>(parent, val_string, is_terminal);
    nodes->push_back(ret);
    return ret.get();
'''
SUB = '''      Subscription ret(new SubscriptionCl(this,
					  subscription_counter));
'''
DEM = '''	std::unique_ptr<char, void (*)(void *)> from_type(abi::__cxa_demangle(typeid(p).name(), 
									      nullptr, nullptr, &st1), std::free);
'''
CASES = [
 ('rc-last', 'bug', 'R01', [(MB, OLDQ, OLDQ + '    std::shared_ptr<T> last;\n'), (MB, '      for(auto & q : message_queues) {\n	if(q.first != omit_key) {', '      last = msg;\n      for(auto & q : message_queues) {\n	if(q.first != omit_key) {')]),
 ('rc-history', 'bug', 'R01', [(MB, OLDQ, OLDQ + '    std::vector<std::shared_ptr<T>> taken;\n'), (MB, '	mqueue.pop();\n	return ret;', '	mqueue.pop();\n	taken.push_back(ret);\n	return ret;')]),
 ('rc-last-got', 'bug', 'R01', [(MB, OLDQ, OLDQ + '    std::shared_ptr<T> last;\n'), (MB, '	mqueue.pop();\n	return ret;', '	mqueue.pop();\n	last = ret;\n	return ret;')]),
 ('rc-static-cache', 'bug', 'R01', [(MB, '      for(auto & q : message_queues) {\n	if(q.first != omit_key) {', '      static std::shared_ptr<T> last;\n      last = msg;\n      for(auto & q : message_queues) {\n	if(q.first != omit_key) {')]),
 ('rc-log-in-base', 'bug', 'R01', [(MB, OLDQ, OLDQ + '    struct Log { std::queue<std::shared_ptr<T>> all; unsigned int n; };\n    Log log;\n'), (MB, PUSH, PUSH + '	  log.all.push(msg);\n')]),
 ('rc-raw-sub', 'bug', 'R01', [(MB, SUB, '      auto sp = new SubscriptionCl(this, subscription_counter);\n      if(message_queues.count(subscription_counter) != 0) throw MissingSubscriber(getName(), "subscribe()", subscription_counter);\n      Subscription ret(sp);\n')]),
 ('rc-raw-node', 'bug', 'R01', [(TC, NODE, '    return new PropNode(parent, val_string, is_terminal);\n')]),
 ('rc-dangling-node', 'bug', 'R01', [(TC, NODE, NODE.replace('    nodes->push_back(ret);\n', ''))]),
 ('rc-demangle', 'bug', 'R01', [(MB, DEM, DEM.replace(', std::free);', ', [](void *) { });').replace('std::unique_ptr<char, void (*)(void *)> from_type(', 'const char * from_type = (').replace(', [](void *) { }', '')), (MB, 'from_type.get()', 'from_type')]),
 ('rc-nonvirtual', 'bug', 'R01', [(MB, '    virtual ~MailBoxBase() = default;', '    ~MailBoxBase() = default;\n    virtual unsigned int pending() { return 0; }')]),
 ('rc-tree-nonvirtual', 'bug', 'R01', [(TH, '    virtual ~PropertyTree() = default;', '    ~PropertyTree() = default;')]),
 ('rc-second-owner', 'bug', 'R01', [(MB, PUSH, '	  q.second.push(std::shared_ptr<T>(msg.get()));\n')]),
 ('rc-same-two-step', 'same', 'R01', [(TC, NODE, '    std::shared_ptr<PropNode> ret(new PropNode(parent, val_string, is_terminal));\n    nodes->push_back(ret);\n    return ret.get();\n')]),
 ('rc-same-moved', 'same', 'R01', [(TC, NODE, '    auto ret = std::make_shared<PropNode>(parent, val_string, is_terminal);\n    auto raw = ret.get();\n    nodes->push_back(std::move(ret));\n    return raw;\n')]),
 ('rc-same-back', 'same', 'R01', [(TC, NODE, '    nodes->push_back(std::make_shared<PropNode>(parent, val_string, is_terminal));\n    return nodes->back().get();\n')]),
 ('rc-same-emplace', 'same', 'R01', [(TC, NODE, '    nodes->emplace_back(new PropNode(parent, val_string, is_terminal));\n    return nodes->back().get();\n')]),
 ('rc-same-reset', 'same', 'R01', [(MB, SUB, '      Subscription ret;\n      ret.reset(new SubscriptionCl(this, subscription_counter));\n')]),
 ('rc-same-raw-then-own', 'same', 'R01', [(MB, SUB, '      auto sp = new SubscriptionCl(this, subscription_counter);\n      Subscription ret(sp);\n')]),
 ('rc-same-weak', 'same', 'R01 M01', [(MB, OLDQ, OLDQ + '    std::weak_ptr<T> last;\n'), (MB, '      for(auto & q : message_queues) {\n	if(q.first != omit_key) {', '      last = msg;\n      for(auto & q : message_queues) {\n	if(q.first != omit_key) {')]),
 ('rc-same-total', 'same', 'R01 M01', [(MB, OLDQ, OLDQ + '    unsigned long total = 0;\n'), (MB, '      for(auto & q : message_queues) {\n	if(q.first != omit_key) {', '      total++;\n      for(auto & q : message_queues) {\n	if(q.first != omit_key) {')]),
 ('rc-same-local-copy', 'same', 'R01 M01', [(MB, '      for(auto & q : message_queues) {\n	if(q.first != omit_key) {', '      auto m = msg;\n      for(auto & q : message_queues) {\n	if(q.first != omit_key) {'), (MB, PUSH, PUSH.replace('msg', 'm'))]),
 ('rc-same-struct', 'same', 'R01', [(MB, OLDQ, '    struct Box { std::queue<std::shared_ptr<T>> q; };\n' + OLDQ)]),
 ('rc-same-demangle-helper', 'same', 'R01 E02 M05', [(MB, DEM, '	char * from_type = abi::__cxa_demangle(typeid(p).name(), nullptr, nullptr, &st1);\n	std::string from_name(from_type);\n	std::free(from_type);\n'), (MB, 'from_type.get()', 'from_name')]),
 ('rc-same-delete', 'same', 'R01', [(TC, NODE, '    auto probe = new PropNode(parent, val_string, is_terminal);\n    delete probe;\n' + NODE)]),
 ('rc-same-get-move', 'same', 'R01 M02', [(MB, '	auto ret = mqueue.front();', '	std::shared_ptr<T> ret = std::move(mqueue.front());')]),
]
CASES += [
 ('rc-unsub-keeps', 'bug', 'R01 M03', [(MB, '      message_queues.erase(subid);', '      if(mqueue.size() > 0) message_queues.erase(subid);')]),
 ('rc-clear-one', 'bug', 'R01 M02', [(MB, '''      auto & mqueue = getQueue(subs);
      while(!mqueue.empty()) mqueue.pop();''', '''      auto & mqueue = getQueue(subs);
      while(mqueue.size() > 1) mqueue.pop();''')]),
]
