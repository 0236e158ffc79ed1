-- nvim --clean --headless -l findings/c28_error_while_applying.lua  ("after 2" is right, "after 1" is the defect)
package.path = "/repo/vim-plugin/lua/?.lua;" .. package.path
local ct = require("changetracker")
local n = 0
vim.api.nvim_buf_set_lines(0, 0, -1, true, {"hello"})
ct.track_changes(0, function() n = n + 1 end)
vim.api.nvim_buf_set_lines(0, 0, 1, true, {"hello1"}); print("before", n)
vim.bo.modifiable = false
local ok, err = pcall(ct.apply_delta, vim.api.nvim_get_current_buf(), {{range={start={line=0,character=0},["end"]={line=0,character=0}}, replacement="x"}})
print("apply", ok, err)
vim.bo.modifiable = true
vim.api.nvim_buf_set_lines(0, 0, 1, true, {"hello2"}); print("after", n)
