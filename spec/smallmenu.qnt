// The menus of the small instances, with the constants of the deployed program.
module smallmenu {
  import types.* from "./types"
  import small.* from "./small"
  var menus: List[List[Op]]
  var starts: List[State]
  action initMenus = all { menus' = MENUS,
                      starts' = range(0, 8).foldl([], (l, i) => l.append(start(i))) }
  action stepMenus = all { menus' = menus, starts' = starts }
}
