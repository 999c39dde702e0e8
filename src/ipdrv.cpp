// The server's decisions on client addresses, asked of the object the server asks.
#include "GRPC/APIUtil.h"
#include <unistd.h>
#include <fcntl.h>
#include "msg.h"

int main(int argc, char **argv)
{
	g_out = fdopen(dup(1), "w");
	dup2(open(argc > 1 ? argv[1] : "/dev/null", O_RDWR | O_CREAT | O_APPEND, 0644), 1);
	if (argc > 2)	// make the system database
	{
		Util util;
		Database db("system");
		return db.build(Util::system_path) ? 0 : 1;
	}
	APIUtil *a = new APIUtil();
	int r = a->initialize("ghttp", "9000", "", false);
	Msg m, out;
	while (read_msg(m))
	{
		out.assign(1, "ok");
		try
		{
			if (m[0] == "init") out.push_back(num(r));
			else if (m[0] == "type") out.push_back(a->ip_enabled_type());
			else if (m[0] == "check") for (size_t i = 1; i < m.size(); i++) out.push_back(num(a->check_access_ip(m[i], 1).empty()));
			else if (m[0] == "save") out.push_back(num(a->ip_save(m[1], std::vector<std::string>(m.begin() + 2, m.end()))));
			else if (m[0] == "list") for (auto &s : a->ip_list(m[1])) out.push_back(s);
		}
		catch (const std::exception &e) { out.assign(1, std::string("exception ") + e.what()); }
		send_msg(out);
	}
	_exit(0);
}
