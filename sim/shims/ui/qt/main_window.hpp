// Stand-in for the main window: the command line world only notes that it was asked for.
#pragma once
namespace app { class OpenEMSH; }
namespace sim { extern int windows_opened; }
namespace ui::qt {
class MainWindow {
public:
	explicit MainWindow(app::OpenEMSH&) { ++sim::windows_opened; }
	void show() {}
	void parse_and_display() {}
};
}
