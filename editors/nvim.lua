-- Drives the Neovim plugin: reads one command per line from a pipe, executes it, and answers with
-- the state of the buffer and the messages the plugin sent. The connection to the daemon is
-- replaced by a recorder.

local commands = assert(io.open(vim.env.MC_COMMANDS, "r"))
local answers = assert(io.open(vim.env.MC_ANSWERS, "w"))

local sent = {}
local dispatchers
local pending_opens = {}
-- Whether requests for opening are answered at once ("ok"), or only when told to ("later", "refuse
-- later").
local opening = "ok"

vim.lsp.rpc.start = function(a, b, c)
    dispatchers = c or b
    return {
        request = function(method, params, callback)
            table.insert(sent, { method = method, params = vim.deepcopy(params) })
            if method == "open" and opening ~= "ok" then
                table.insert(pending_opens, { callback = callback, refuse = opening == "refuse later" })
            elseif callback then
                callback(nil, "success")
            end
            return true
        end,
        notify = function(method, params)
            table.insert(sent, { method = method, params = vim.deepcopy(params) })
            return true
        end,
        terminate = function() end,
        is_closing = function()
            return false
        end,
    }
end

-- Neovim pauses after errors.
vim.api.nvim_err_writeln = function(message)
    vim.v.errmsg = message
end

local function keys(s)
    vim.api.nvim_feedkeys(vim.api.nvim_replace_termcodes(s, true, true, true), "mtx", false)
end

local remote_in_insert_mode

local function remote(message)
    dispatchers.notification(message.method, message.params)
end

function _G.mc_remote()
    remote(remote_in_insert_mode)
end
vim.cmd("inoremap <F2> <Cmd>lua mc_remote()<CR>")
vim.cmd("nnoremap <F2> <Cmd>lua mc_remote()<CR>")
vim.cmd("xnoremap <F2> <Cmd>lua mc_remote()<CR>")

-- The plugin is told about the cursor by Neovim's main loop, which does not run here.
local moved

function _G.mc_moved()
    local before = #sent
    vim.cmd("doautocmd " .. (vim.fn.mode() == "i" and "CursorMovedI" or "CursorMoved"))
    moved = { mode = vim.fn.mode(), sent = vim.list_slice(sent, before + 1) }
end
for _, mode in ipairs({ "n", "x", "i" }) do
    vim.keymap.set(mode, "<F3>", "<Cmd>lua mc_moved()<CR>")
end

local handlers = {}

function handlers.edit(c)
    vim.cmd("silent! edit! " .. vim.fn.fnameescape(c.path))
end

function handlers.wipe()
    pending_opens = {}
    vim.cmd("silent! %bwipeout!")
    -- What was deleted before can be inserted again, and the last change repeated, which must not depend
    -- on what was before.
    keys("iq<Esc>u")
    for _, register in ipairs({ "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "-", '"' }) do
        vim.fn.setreg(register, "q")
    end
end

function handlers.forget()
    for _, register in ipairs({ "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "-", '"' }) do
        vim.cmd("call setreg('" .. register .. "', {})")
    end
end

function handlers.delete(c)
    vim.cmd("silent! bwipeout! " .. c.path)
end

function handlers.opening(c)
    opening = c.mode
end

function handlers.opened()
    local callbacks = pending_opens
    pending_opens = {}
    for _, pending in ipairs(callbacks) do
        if pending.refuse then
            pending.callback({ code = -1, message = "refused" })
        else
            pending.callback(nil, "success")
        end
    end
end

function handlers.cursor(c)
    vim.api.nvim_win_set_cursor(0, { c.row, c.column })
end

function handlers.keys(c)
    remote_in_insert_mode = c.remote
    keys(c.keys)
end

function handlers.remote(c)
    remote(c.message)
end

-- Selects from one position to another one.
function handlers.select(c)
    vim.api.nvim_win_set_cursor(0, { c.from[1], c.from[2] })
    keys(c.mode .. "<Cmd>call cursor(" .. c.to[1] .. "," .. c.to[2] + 1 .. ")<CR><F3>")
    keys("<Esc>")
end

function handlers.output(c)
    return vim.api.nvim_exec2(c.command, { output = true }).output
end

function handlers.buffers(c)
    vim.cmd("silent! edit! " .. vim.fn.fnameescape(c.path))
end

function handlers.state() end

-- What the plugin highlights in a buffer.
local function marks(bufnr)
    local all = {}
    for _, namespace in pairs(vim.api.nvim_get_namespaces()) do
        for _, mark in ipairs(vim.api.nvim_buf_get_extmarks(bufnr, namespace, 0, -1, { details = true })) do
            local text = ""
            for _, chunk in ipairs(mark[4].virt_text or {}) do
                text = text .. chunk[1]
            end
            table.insert(all, {
                from = { mark[2], mark[3] },
                to = { mark[4].end_row or mark[2], mark[4].end_col or mark[3] },
                text = text,
            })
        end
    end
    return all
end

local function buffer_state(bufnr)
    local fixed = {}
    for _, line in ipairs(vim.api.nvim_buf_get_lines(bufnr, 0, -1, true)) do
        table.insert(fixed, line)
    end
    return { lines = fixed, eol = vim.bo[bufnr].eol, ff = vim.bo[bufnr].fileformat, marks = marks(bufnr) }
end

for line in commands:lines() do
    local command = vim.json.decode(line)
    sent = {}
    moved = nil
    vim.v.errmsg = ""
    local ok, result = pcall(handlers[command.what], command)
    vim.wait(0)
    local buffers = {}
    for _, bufnr in ipairs(vim.api.nvim_list_bufs()) do
        local name = vim.api.nvim_buf_get_name(bufnr)
        if vim.api.nvim_buf_is_loaded(bufnr) and name ~= "" then
            buffers[name] = buffer_state(bufnr)
        end
    end
    local answer = {
        buffers = next(buffers) and buffers or vim.empty_dict(),
        sent = sent,
        moved = moved,
        error = ok and vim.v.errmsg or tostring(result),
        output = ok and result or "",
        lines = vim.api.nvim_buf_get_lines(0, 0, -1, true),
        shown = vim.api.nvim_buf_get_name(0),
        mode = vim.api.nvim_get_mode().mode,
        cursor = vim.api.nvim_win_get_cursor(0),
    }
    answers:write(vim.json.encode(answer), "\n")
    answers:flush()
end
vim.cmd("qall!")
