// One message = "<n>\n" followed by n netstrings "<len>:<bytes>\n".
#pragma once
#include <cstdio>
#include <string>
#include <vector>
typedef std::vector<std::string> Msg;
static FILE *g_out;

static bool read_msg(Msg &m)
{
	m.clear();
	long n;
	if (scanf("%ld", &n) != 1)
		return false;
	for (long i = 0; i < n; i++)
	{
		size_t len;
		if (scanf("%zu:", &len) != 1)
			return false;
		std::string s(len, '\0');
		if (len && fread(&s[0], 1, len, stdin) != len)
			return false;
		m.push_back(s);
	}
	return true;
}
static void send_msg(const Msg &m)
{
	fprintf(g_out, "%zu\n", m.size());
	for (auto &s : m)
	{
		fprintf(g_out, "%zu:", s.size());
		fwrite(s.data(), 1, s.size(), g_out);
		fputc('\n', g_out);
	}
	fflush(g_out);
}
static std::string num(long long x) { return std::to_string(x); }
