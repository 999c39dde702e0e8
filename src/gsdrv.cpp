// Command-driven client of gStore's public API.  Requests arrive on stdin, replies leave on the
// descriptor that was stdout at start (gStore itself prints to stdout, which is redirected to a log).
#include "Database/Database.h"
#include "Database/Txn_manager.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <map>
#include <memory>
#include <thread>
#include <atomic>
#include <chrono>
#include "msg.h"
using namespace std;

struct DB
{
	unique_ptr<Database> db;
	unique_ptr<Txn_manager> tm;
};
static map<string, DB> dbs;

static Database *get(const string &n)
{
	auto it = dbs.find(n);
	return it == dbs.end() ? nullptr : it->second.db.get();
}

// rows the way every front end of gStore reads them: offset/limit window, records from the stream if one is used
static void rows_of(ResultSet &rs, Msg &out)
{
	int nv = rs.true_select_var_num;
	out.push_back(num(rs.ansNum));
	out.push_back(num(nv));
	for (int i = 0; i < nv; i++)
		out.push_back(rs.var_name[i]);
	if (rs.checkUseStream())
		rs.resetStream();
	for (long long i = (!rs.checkUseStream() ? rs.output_offset : 0LL); i < (long long)rs.ansNum; i++)
	{
		if (rs.output_limit != -1 && i == (long long)rs.output_offset + rs.output_limit)
			break;
		const Bstr *bp = NULL;
		if (rs.checkUseStream())
			bp = rs.getOneRecord();
		if (i >= rs.output_offset)
			for (int j = 0; j < nv; j++)
				out.push_back(rs.checkUseStream() ? string(bp[j].getStr()) : rs.answer[i][j]);
	}
}

static void dump(Database *db, Msg &out)
{
	// every triple according to each of the three index families, and the degrees, by string
	KVstore *kv = db->getKVstore();
	TYPE_ENTITY_LITERAL_ID ne = db->getlimitID_entity(), nl = db->getlimitID_literal();
	TYPE_PREDICATE_ID np = db->getlimitID_predicate();
	auto str = [&](unsigned id) { return id < Util::LITERAL_FIRST_ID ? kv->getEntityByID(id) : kv->getLiteralByID(id); };
	for (unsigned i = 0; i < ne; i++)
	{
		string s = kv->getEntityByID(i);
		if (s.empty())
			continue;
		out.push_back("E"); out.push_back(s); out.push_back(num(i)); out.push_back(num((long long)kv->getIDByEntity(s)));
		unsigned *l = NULL, n = 0;
		kv->getpreIDobjIDlistBysubID(i, l, n);
		for (unsigned k = 0; k + 1 < n; k += 2)
		{
			out.push_back("S"); out.push_back(s); out.push_back(kv->getPredicateByID(l[k])); out.push_back(str(l[k + 1]));
		}
		delete[] l;
	}
	auto obj = [&](unsigned id) {
		string o = str(id);
		if (o.empty())
			return;
		if (id >= Util::LITERAL_FIRST_ID)
		{
			out.push_back("L"); out.push_back(o); out.push_back(num(id)); out.push_back(num((long long)kv->getIDByLiteral(o)));
		}
		unsigned *l = NULL, n = 0;
		kv->getpreIDsubIDlistByobjID(id, l, n);
		for (unsigned k = 0; k + 1 < n; k += 2)
		{
			out.push_back("O"); out.push_back(str(l[k + 1])); out.push_back(kv->getPredicateByID(l[k])); out.push_back(o);
		}
		delete[] l;
	};
	for (unsigned i = 0; i < ne; i++)
		obj(i);
	for (unsigned i = 0; i < nl; i++)
		obj(i + Util::LITERAL_FIRST_ID);
	for (unsigned i = 0; i < np; i++)
	{
		string p = kv->getPredicateByID(i);
		if (p.empty())
			continue;
		out.push_back("R"); out.push_back(p); out.push_back(num(i)); out.push_back(num((long long)kv->getIDByPredicate(p)));
		unsigned *l = NULL, n = 0;
		kv->getsubIDobjIDlistBypreID(i, l, n);
		for (unsigned k = 0; k + 1 < n; k += 2)
		{
			out.push_back("P"); out.push_back(str(l[k])); out.push_back(p); out.push_back(str(l[k + 1]));
		}
		delete[] l;
	}
}

// the id-level access paths, by string: list of answers
static void access_path(Database *db, const Msg &m, Msg &out)
{
	KVstore *kv = db->getKVstore();
	const string &kind = m[2];
	const string &s = m[3], &p = m[4], &o = m[5];
	auto eid = [&](const string &x) { return kv->getIDByEntity(x); };
	auto oid = [&](const string &x) -> unsigned { return x[0] == '"' ? kv->getIDByLiteral(x) : kv->getIDByEntity(x); };
	auto str = [&](unsigned id) { return id < Util::LITERAL_FIRST_ID ? kv->getEntityByID(id) : kv->getLiteralByID(id); };
	unsigned *l = NULL, n = 0;
	bool nd = m[6] == "1";
	string t; // types of the columns in the list
	if (kind == "s2p") { kv->getpreIDlistBysubID(eid(s), l, n, nd); t = "p"; }
	else if (kind == "s2o") { kv->getobjIDlistBysubID(eid(s), l, n, nd); t = "o"; }
	else if (kind == "sp2o") { kv->getobjIDlistBysubIDpreID(eid(s), kv->getIDByPredicate(p), l, n, nd); t = "o"; }
	else if (kind == "s2po") { kv->getpreIDobjIDlistBysubID(eid(s), l, n, nd); t = "po"; }
	else if (kind == "o2p") { kv->getpreIDlistByobjID(oid(o), l, n, nd); t = "p"; }
	else if (kind == "o2s") { kv->getsubIDlistByobjID(oid(o), l, n, nd); t = "s"; }
	else if (kind == "op2s") { kv->getsubIDlistByobjIDpreID(oid(o), kv->getIDByPredicate(p), l, n, nd); t = "s"; }
	else if (kind == "o2ps") { kv->getpreIDsubIDlistByobjID(oid(o), l, n, nd); t = "ps"; }
	else if (kind == "p2s") { kv->getsubIDlistBypreID(kv->getIDByPredicate(p), l, n, nd); t = "s"; }
	else if (kind == "p2o") { kv->getobjIDlistBypreID(kv->getIDByPredicate(p), l, n, nd); t = "o"; }
	else if (kind == "p2so") { kv->getsubIDobjIDlistBypreID(kv->getIDByPredicate(p), l, n, nd); t = "so"; }
	else if (kind == "so2p") { kv->getpreIDlistBysubIDobjID(eid(s), oid(o), l, n, nd); t = "p"; }
	else if (kind == "spo")
	{
		out.push_back(num(kv->existThisTriple(eid(s), kv->getIDByPredicate(p), oid(o))));
		return;
	}
	else if (kind == "deg")
	{
		out.push_back(num(kv->getEntityOutDegree(eid(s))));
		out.push_back(num(kv->getEntityInDegree(eid(s))));
		out.push_back(num(kv->getPredicateDegree(kv->getIDByPredicate(p))));
		out.push_back(num(kv->getSubjectPredicateDegree(eid(s), kv->getIDByPredicate(p))));
		out.push_back(num(kv->getObjectPredicateDegree(oid(o), kv->getIDByPredicate(p))));
		out.push_back(num(o[0] == '"' ? kv->getLiteralDegree(oid(o)) : kv->getEntityDegree(oid(o))));
		return;
	}
	bool sorted = true;
	for (unsigned k = 0; k < n; k++)
	{
		if (t.size() == 1 && k && l[k] < l[k - 1])
			sorted = false;
		out.push_back(t[k % t.size()] == 'p' ? kv->getPredicateByID(l[k]) : str(l[k]));
	}
	out.insert(out.begin(), num(sorted));
	delete[] l;
}

// several threads, each running its list of operations, all let off at the same moment.
// m: concur db threads repeat, then for each operation: thread, pause in us, kind, text
// out, for each operation: thread, start, end (ns), status, ret, columns, rows, cells ...
struct Op
{
	long pause;
	string kind, text, st;
	long long t0, t1, ret;
	int nv;
	vector<string> cells;
};
static void concur(Database *db, const Msg &m, Msg &out)
{
	int nt = stoi(m[2]);
	vector<vector<Op>> ops(nt);
	for (size_t i = 3; i + 3 < m.size(); i += 4)
	{
		Op o;
		o.pause = stol(m[i + 1]); o.kind = m[i + 2]; o.text = m[i + 3];
		o.t0 = o.t1 = o.ret = 0; o.nv = 0;
		ops[stoi(m[i])].push_back(o);
	}
	atomic<int> ready(0);
	auto now = []() { return (long long)chrono::duration_cast<chrono::nanoseconds>(chrono::steady_clock::now().time_since_epoch()).count(); };
	auto work = [&](int me) {
		ready++;
		while (ready < nt) this_thread::yield();
		for (auto &o : ops[me])
		{
			if (o.pause) usleep(o.pause);
			o.st = "ok";
			ResultSet rs;
			rs.setUsername("root");
			o.t0 = now();
			try
			{
				if (o.kind == "q") o.ret = db->query(o.text, rs, NULL, true, false, nullptr);
				else if (o.kind == "binsert") o.ret = db->batch_insert(o.text, false, nullptr);
				else if (o.kind == "bremove") o.ret = db->batch_remove(o.text, false, nullptr);
				else if (o.kind == "save") o.ret = db->save();
				else if (o.kind == "stat") { o.ret = db->getTripleNum(); db->getStatisticsInfo(); db->getEntityNum(); db->getLiteralNum(); db->getSubNum(); db->getPreNum(); }
			}
			catch (const std::exception &e) { o.st = string("exc:") + e.what(); }
			catch (const string &e) { o.st = "exc:" + e; }
			catch (const char *e) { o.st = string("exc:") + e; }
			o.t1 = now();
			if (o.kind == "q" && o.st == "ok" && o.ret == -100)
			{
				Msg r;
				rows_of(rs, r);
				o.nv = stoi(r[1]);
				o.cells.assign(r.begin() + 2 + o.nv, r.end());
			}
		}
	};
	vector<thread> th;
	for (int i = 0; i < nt; i++) th.emplace_back(work, i);
	for (auto &t : th) t.join();
	for (int i = 0; i < nt; i++)
		for (auto &o : ops[i])
		{
			out.push_back(num(i)); out.push_back(num(o.t0)); out.push_back(num(o.t1)); out.push_back(o.st);
			out.push_back(num(o.ret)); out.push_back(num(o.nv)); out.push_back(num(o.cells.size()));
			for (auto &c : o.cells) out.push_back(c);
		}
}

static IsolationLevelType iso_of(const string &s)
{
	return s == "SI" ? IsolationLevelType::SNAPSHOT : s == "RC" ? IsolationLevelType::READ_COMMITTED : IsolationLevelType::SERIALIZABLE;
}

static map<string, long long> watched;	// occurrences of given strings in what the engine prints (which plan it chose etc.)
static int log_fd = -1;
static void scan_log()
{
	if (watched.empty())
		return;
	off_t n = lseek(log_fd, 0, SEEK_END);
	string s(n > 0 ? n : 0, '\0');
	if (n > 0 && pread(log_fd, &s[0], n, 0) != n)
		return;
	for (auto &w : watched)
		for (size_t p = s.find(w.first); p != string::npos; p = s.find(w.first, p + 1))
			w.second++;
}

static void handle(const Msg &m, Msg &out)
{
	const string &c = m[0];
	if (c == "watch") { for (size_t i = 1; i < m.size(); i++) watched[m[i]] = 0; return; }
	if (c == "watched") { for (auto &w : watched) { out.push_back(w.first); out.push_back(num(w.second)); } return; }
	if (c == "ping") { out.push_back("ok"); return; }
	if (c == "chdir") { out.push_back(num(chdir(m[1].c_str()))); return; }
	if (c == "build" || c == "buildempty")
	{
		Database *db = new Database(m[1]);
		bool r = c == "build" ? db->build(m[2]) : db->BuildEmptyDB();
		delete db;
		if (r)
		{
			ofstream f(Util::global_config["db_home"].empty() ? m[1] + ".db/success.txt" : m[1] + ".db/success.txt");
			f.close();
		}
		out.push_back(num(r));
		return;
	}
	if (c == "load")
	{
		DB d;
		d.db.reset(new Database(m[1]));
		bool r = d.db->load(m.size() > 2 && m[2] == "1");
		dbs[m[1]] = move(d);
		out.push_back(num(r));
		return;
	}
	if (c == "close")	// destructor: the normal shutdown of the command line tools
	{
		auto &d = dbs[m[1]];
		d.tm.reset();
		d.db.reset();
		dbs.erase(m[1]);
		out.push_back("1");
		return;
	}
	if (c == "kill") _exit(77);
	Database *db = get(m.size() > 1 ? m[1] : "");
	if (!db) { out.push_back("nodb"); return; }
	if (c == "save") out.push_back(num(db->save()));
	else if (c == "unload") out.push_back(num(db->unload()));
	else if (c == "backup") out.push_back(num(db->backup()));
	else if (c == "restore") out.push_back(num(db->restore()));
	else if (c == "query")
	{
		// [2] sparql [3] flags: u update allowed, j also as JSON, t also as text, f to file (export)
		const string &fl = m[3];
		ResultSet rs;
		rs.setUsername("root");
		int ret = db->query(m[2], rs, NULL, fl.find('u') != string::npos, false, nullptr);
		out.push_back(num(ret));
		if (ret == -100)
			rows_of(rs, out);
		if (fl.find('j') != string::npos && ret == -100) out.push_back(rs.to_JSON());
		if (fl.find('t') != string::npos && ret == -100) out.push_back(rs.to_str());
	}
	else if (c == "queryfile")	// gquery -f: results to a file
	{
		ResultSet rs;
		rs.setUsername("root");
		FILE *fp = fopen(m[3].c_str(), "w");
		int ret = db->query(m[2], rs, fp, true, m[4] == "1", nullptr);
		fclose(fp);
		out.push_back(num(ret));
		out.push_back(num(rs.ansNum));
	}
	else if (c == "binsert") out.push_back(num(db->batch_insert(m[2], false, nullptr)));
	else if (c == "bremove") out.push_back(num(db->batch_remove(m[2], false, nullptr)));
	else if (c == "insert") out.push_back(num(db->insert(m[2], false, nullptr)));
	else if (c == "remove") out.push_back(num(db->remove(m[2], false, nullptr)));
	else if (c == "export")
	{
		FILE *fp = fopen(m[2].c_str(), "w+");
		db->export_db(fp);
		fflush(fp);
		fclose(fp);
		out.push_back("1");
	}
	else if (c == "stat")
	{
		out.push_back(num(db->getTripleNum())); out.push_back(num(db->getEntityNum())); out.push_back(num(db->getLiteralNum()));
		out.push_back(num(db->getSubNum())); out.push_back(num(db->getPreNum()));
		for (auto &kv : db->getStatisticsInfo()) { out.push_back(kv.first); out.push_back(num(kv.second)); }
	}
	else if (c == "concur") concur(db, m, out);
	else if (c == "dump") dump(db, out);
	else if (c == "path") access_path(db, m, out);
	else if (c == "begin" || c == "tquery" || c == "commit" || c == "rollback" || c == "checkpoint")
	{
		DB &d = dbs[m[1]];
		if (!d.tm) d.tm.reset(new Txn_manager(db, m[1]));
		if (c == "begin") out.push_back(num((long long)d.tm->Begin(iso_of(m[2]))));
		else if (c == "commit") out.push_back(num(d.tm->Commit(stoull(m[2]))));
		else if (c == "rollback") out.push_back(num(d.tm->Rollback(stoull(m[2]))));
		else if (c == "checkpoint") { d.tm->Checkpoint(); out.push_back("1"); }
		else
		{
			string res;
			int ret = d.tm->Query(stoull(m[2]), m[3], res);
			out.push_back(num(ret));
			out.push_back(res);
		}
	}
	else out.push_back("badcmd");
}

int main(int argc, char **argv)
{
	int fd = dup(1);
	g_out = fdopen(fd, "w");
	int lg = open(argc > 1 ? argv[1] : "/dev/null", O_RDWR | O_CREAT | O_APPEND, 0644);
	log_fd = lg;
	dup2(lg, 1);
	Util util;
	util.configure_new();
	Msg m, out;
	while (read_msg(m))
	{
		out.clear();
		string st = "ok";
		try { handle(m, out); }
		catch (const std::exception &e) { st = string("exc:") + e.what(); }
		catch (const string &e) { st = "exc:" + e; }
		catch (const char *e) { st = string("exc:") + e; }
		catch (...) { st = "exc:?"; }
		out.insert(out.begin(), st);
		send_msg(out);
		fflush(stdout);
		scan_log();
		if (ftruncate(1, 0)) {}
	}
	dbs.clear();
	return 0;
}
