prop = 'C17'
needs = 'a configuration that sets the password of the notifier but not its user name'
breaks = 'the password is silently ignored'
edits = [('src/config/broker_config.cpp', '''				notifier_config_.username = config["notifier"]["username"].as<std::string>();
			} // no throw... can be omitted
			if (config["notifier"]["password"] && config["notifier"]["password"].IsScalar()) {
				notifier_config_.password = config["notifier"]["password"].as<std::string>();
			} // no throw... can be omitted
''', '''				notifier_config_.username = config["notifier"]["username"].as<std::string>();
				if (config["notifier"]["password"] && config["notifier"]["password"].IsScalar()) {
					notifier_config_.password = config["notifier"]["password"].as<std::string>();
				} // no throw... can be omitted
			} // no throw... can be omitted
''')]
demo = r"""#include "config/broker_config.h"
#include <cstdio>
int main()
{
	broker_config a(YAML::Load("notifier: {username: u, password: p}"));
	broker_config b(YAML::Load("notifier: {address: a, password: p}"));
	bool ok = a.get_notifier_config().password == "p" && b.get_notifier_config().password == "p" && b.get_notifier_config().username == "";
	std::printf("%d\n", ok);
	return ok ? 0 : 1;
}
"""
