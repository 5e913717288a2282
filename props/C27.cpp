// C27: the pictures of the potential field and of the obstacle heuristic.
#include "algo/heuristics.h"
#include "algo/hybrid_a_star.h"
#include "grid_gen.h"
#include "map_gen.h"
#include "state_space/state_space_se2.h"
#include "state_validator/state_validator_occupancy_map.h"
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
using namespace Planner;
using namespace pbt;
using namespace mapgen;

namespace {
	/// A file in memory: the code under test writes nothing on the disk.
	class Scratch {
	public:
		Scratch() { m_fd = memfd_create("picture", 0); }
		~Scratch() { close(m_fd); }
		std::string name() const { return "/proc/self/fd/" + std::to_string(m_fd); }
		std::string read() const
		{
			std::string out;
			char buf[4096];
			ssize_t n;
			off_t at = 0;
			while ((n = pread(m_fd, buf, sizeof buf, at)) > 0)
				out.append(buf, n), at += n;
			return out;
		}

	private:
		int m_fd;
	};

	struct Picture {
		int width = 0, height = 0;
		std::vector<std::array<int, 3>> px;
		/// pixel of cell (row, column): x to the right, y upwards
		const std::array<int, 3>& at(int r, int k) const { return px[(size_t)(height - 1 - k) * width + r]; }
	};

	/// Decoder of binary PPM images, comments included.
	Picture decode(Case& c, const std::string& f)
	{
		Picture p;
		size_t i = 0;
		auto token = [&]() {
			for (;;) {
				while (i < f.size() && isspace((unsigned char)f[i]))
					i++;
				if (i < f.size() && f[i] == '#')
					while (i < f.size() && f[i] != '\n')
						i++;
				else
					break;
			}
			std::string t;
			while (i < f.size() && !isspace((unsigned char)f[i]))
				t += f[i++];
			return t;
		};
		std::string magic = token();
		c.check(magic == "P6", "the file is no binary pixel map but starts with '", magic, "'");
		p.width = atoi(token().c_str());
		p.height = atoi(token().c_str());
		std::string max = token();
		c.check(max == "255", "the largest colour value is ", max);
		i++;
		c.check(p.width > 0 && p.height > 0 && f.size() - i == (size_t)p.width * p.height * 3, "the file has ", f.size() - i, " bytes of pixels for a picture of ", p.width, "x", p.height);
		for (; i + 2 < f.size(); i += 3)
			p.px.push_back({ (unsigned char)f[i], (unsigned char)f[i + 1], (unsigned char)f[i + 2] });
		return p;
	}

	/// Hue in [0, 1), full saturation.
	std::array<double, 3> colour(double h, double v)
	{
		auto ch = [&](double n) {
			double k = std::fmod(n + h * 6, 6.0);
			return v - v * std::max(0.0, std::min({ k, 4 - k, 1.0 }));
		};
		return { 255 * ch(5), 255 * ch(3), 255 * ch(1) };
	}

	/// Files that are open.
	int openFiles()
	{
		int n = 0;
		for (int fd = 0; fd < 1024; fd++)
			n += fcntl(fd, F_GETFD) != -1;
		return n;
	}

	void badName(Case& c, const std::function<void(const std::string&)>& draw)
	{
		draw("/proc/self/fd/none/picture.ppm");
		c.evals();
	}

	void field(Src& s, Case& c)
	{
		float res = s.oneOf<float>({ 1.0f, 0.5f, 2.0f, 0.1f });
		double w = (s.size(1, 24) - 0.25) * res, h = (s.size(1, 24) - 0.25) * res;
		auto map = makeRef<ObstacleListOccupancyMap>(res);
		map->InitializeSize((float)w, (float)h);
		const int rows = map->Rows(), cols = map->Columns();
		GVD gvd(map);
		std::vector<Ref<Obstacle>> present;
		int rounds = s.range(1, 3), colours = 0, shaded = 0;
		double half = 0.5 * std::max(w, h);
		Scratch file;
		c << rows << "x" << cols << " resolution " << res << ": ";
		for (int i = 0; i < rounds; i++) {
			int n = s.range(0, 4);
			for (int q = 0; q < n; q++) {
				if (!present.empty() && s.chance(1, 4)) {
					int k = s.range(0, present.size() - 1);
					map->RemoveObstacle(present[k]);
					present.erase(present.begin() + k);
					c << "remove; ";
				} else {
					MadeObstacle o = obstacle(s, half, std::max(w, h) * s.oneOf<double>({ 0.05, 0.2, 0.5 }));
					map->AddObstacle(o.obstacle);
					present.push_back(o.obstacle);
					c << "add " << o.shape.kind << "; ";
				}
			}
			gvd.Update();
			if (s.chance(1, 4))
				badName(c, [&](const std::string& f) { gvd.Visualize(f); });
			int before = openFiles();
			gvd.Visualize(file.name());
			c.check(openFiles() == before, "drawing leaves a file open");
			Picture p = decode(c, file.read());
			c.check(p.width == rows && p.height == cols, "the picture of a map of ", rows, "x", cols, " cells is ", p.width, "x", p.height);
			int top = 0;
			for (int r = 0; r < rows; r++)
				for (int k = 0; k < cols; k++)
					top = std::max(top, map->GetOccupancyValue(r, k));
			std::set<int> seen;
			for (int r = 0; r < rows; r++)
				for (int k = 0; k < cols; k++) {
					auto& px = p.at(r, k);
					auto near = gvd.GetNearestObstacleCell(r, k);
					std::array<double, 3> e { 0, 0, 0 };
					if (!map->IsOccupied({ r, k }) && near.IsValid()) {
						double v = std::max(0.0, std::min(1.0, 1.0 - gvd.GetPathCost(r, k)));
						e = colour(map->GetOccupancyValue(near) / (top + 1.0), v);
						seen.insert(map->GetOccupancyValue(near));
						shaded += v < 0.99;
					}
					bool ok = true;
					for (int j = 0; j < 3; j++)
						ok = ok && std::abs(px[j] - e[j]) <= 1.1;
					c.check(ok, "the pixel of cell (", r, ",", k, ") is ", px[0], ",", px[1], ",", px[2], " instead of ", e[0], ",", e[1], ",", e[2]);
				}
			colours = std::max<int>(colours, seen.size());
		}
		c.label("several colours", colours > 1);
		c.label("shaded", shaded > 0);
		c.nontrivial(colours > 1 && shaded > 3);
	}

	void costs(Case& c, const Picture& p, const std::vector<std::vector<char>>& occ, const std::vector<std::vector<double>>& d)
	{
		const int R = occ.size(), C = occ[0].size();
		c.check(p.width == R && p.height == C, "the picture of a map of ", R, "x", C, " cells is ", p.width, "x", p.height);
		double top = 0;
		for (auto& row : d)
			for (double v : row)
				if (std::isfinite(v))
					top = std::max(top, v);
		for (int r = 0; r < R; r++)
			for (int k = 0; k < C; k++) {
				auto& px = p.at(r, k);
				c.check(px[0] == px[1] && px[1] == px[2], "the pixel of cell (", r, ",", k, ") is not grey");
				if (d.empty() || !std::isfinite(d[r][k]))
					c.check(px[0] == 0, "the pixel of the unreached cell (", r, ",", k, ") is ", px[0]);
				else if (top > 0)
					c.check(std::abs(px[0] - 255 * (top - d[r][k]) / top) <= 1.1, "the pixel of cell (", r, ",", k, ") is ", px[0], " instead of ", 255 * (top - d[r][k]) / top);
			}
	}

	class Cells : public OccupancyMap {
	public:
		Cells(int rows, int cols, float res) :
			OccupancyMap(res), occ(rows, std::vector<char>(cols, 0))
		{
			InitializeSize((rows - 0.25f) * res, (cols - 0.25f) * res);
		}
		virtual bool IsOccupied(const GridCellPosition& c) override { return occ.at(c.row).at(c.col) != 0; }
		std::vector<std::vector<char>> occ;
	};

	void heuristic(Src& s, Case& c)
	{
		int R = s.size(1, 20), C = s.size(1, 20);
		float res = s.oneOf<float>({ 1.0f, 0.5f, 0.1f });
		auto map = makeRef<Cells>(R, C, res);
		ObstaclesHeuristic h(map, s.oneOf<double>({ 1, 2, 0.5 }), s.oneOf<double>({ 1, 3 }));
		Scratch file;
		int rounds = s.range(1, 3), unreached = 0;
		c << R << "x" << C << " resolution " << res << " ";
		for (int i = 0; i < rounds; i++) {
			for (auto& row : map->occ)
				std::fill(row.begin(), row.end(), 0);
			gridgen::fill(s, map->occ);
			bool outside = s.chance(1, 12);
			int gr = outside ? -1 : s.range(0, R - 1), gk = outside ? -1 : s.range(0, C - 1);
			c << gridgen::show(map->occ) << " goal (" << gr << "," << gk << ") ";
			h.Update(Pose2d((-(R - 0.25) / 2 + gr + 0.5) * res, (-(C - 0.25) / 2 + gk + 0.5) * res, 0));
			std::vector<std::vector<double>> d;
			if (!outside)
				d = gridgen::distances(map->occ, { gr, gk }, [](GridCellPosition a, GridCellPosition b) { return a.row == b.row || a.col == b.col ? 1.0 : std::sqrt(2.0); });
			if (s.chance(1, 4))
				badName(c, [&](const std::string& f) { h.Visualize(f); });
			int before = openFiles();
			h.Visualize(file.name());
			c.check(openFiles() == before, "drawing leaves a file open");
			costs(c, decode(c, file.read()), map->occ, d);
			for (auto& row : d)
				for (double v : row)
					unreached += !std::isfinite(v);
		}
		c.label("unreached cells", unreached > 0);
		c.nontrivial(R > 3 && C > 3);
	}

	/// The picture a planner draws is that of its goal.
	void planner(Src& s, Case& c)
	{
		const double w = s.range(4, 12) - 0.25, h = s.range(4, 12) - 0.25;
		auto map = makeRef<ObstacleListOccupancyMap>(1.0f);
		map->InitializeSize((float)w, (float)h);
		Point2d origin(s.signedMag(5), s.signedMag(5));
		map->SetPosition(origin);
		auto space = makeRef<StateSpaceSE2>(Pose2d(origin.x() - w / 2, origin.y() - h / 2, -M_PI), Pose2d(origin.x() + w / 2, origin.y() + h / 2, M_PI));
		auto validator = makeRef<StateValidatorOccupancyMap>(space, map);
		std::unique_ptr<HybridAStar> algo;
		if (s.boolean())
			algo = std::make_unique<HybridAStar>();
		else
			algo = std::make_unique<HybridAStar>(HybridAStar::SearchParameters(2.0, 1.0, s.oneOf<double>({ 1.0, 2.0 }), 1.0, 0.0, 5, 1.0, 0.3));
		c.check(algo->Initialize(validator), "the planner refuses a map");
		const int R = map->Rows(), C = map->Columns();
		int rounds = s.range(1, 3), unreached = 0;
		c << R << "x" << C << ":";
		Scratch file;
		for (int i = 0; i < rounds; i++) {
			if (i == 0 || s.boolean()) {
				MadeObstacle o = obstacle(s, 0.5 * std::max(w, h), s.oneOf<double>({ 1.0, 6.0 }));
				o.pose.position += origin;
				o.obstacle->SetPose(o.pose);
				map->AddObstacle(o.obstacle);
				map->Update();
				c << " " << o.shape.kind;
			}
			std::vector<std::vector<char>> occ(R, std::vector<char>(C));
			for (int r = 0; r < R; r++)
				for (int k = 0; k < C; k++)
					occ[r][k] = map->IsOccupied({ r, k });
			GridCellPosition g(s.range(0, R - 1), s.range(0, C - 1));
			Pose2d goal(origin.x() - w / 2 + g.row + 0.4, origin.y() - h / 2 + g.col + 0.4, s.angle());
			c << " goal (" << g.row << "," << g.col << ")";
			algo->SetInitState(goal);
			algo->SetGoalState(goal);
			algo->SearchPath();
			int before = openFiles();
			algo->VisualizeObstacleHeuristic(file.name());
			c.check(openFiles() == before, "drawing leaves a file open");
			auto d = gridgen::distances(occ, g, [](GridCellPosition a, GridCellPosition b) { return a.row == b.row || a.col == b.col ? 1.0 : std::sqrt(2.0); });
			costs(c, decode(c, file.read()), occ, d);
			for (auto& row : d)
				for (double v : row)
					unreached += !std::isfinite(v);
		}
		c.label("unreached cells", unreached > 0);
		c.nontrivial(rounds > 1);
	}
}

namespace pbt {
	Property property()
	{
		Property p;
		p.id = "C27";
		p.rule = "maps of 1 to 24 cells a side with obstacles of every shape added and removed over up to three updates, and random grids with goals inside and outside, drawn to a file in memory, decoded and compared pixel by pixel (+-1) with the colours recomputed from the public queries / Dijkstra costs; names that cannot be opened; the picture a Hybrid A* planner draws after a search is that of its goal. Non-trivial: at least two colours and four shaded pixels; more than three rows and columns; several searches.";
		p.assumptions = { "the picture of a heuristic that reached one cell only is not judged", "the values shown are those of the public queries (decided by C04, C19 and C20)" };
		p.laws = {
			{ "field", 8000, field },
			{ "heuristic", 20000, heuristic },
			{ "planner", 400, planner },
		};
		return p;
	}
}
