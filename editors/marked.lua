-- Runs once per Neovim: records what the plugin (if there is one) sends, executes the steps of
-- MC_STEPS (one JSON list), and writes to MC_ANSWER what was sent and what the buffers are.

local sent = {}
local starts = 0

vim.lsp.rpc.start = function()
    starts = starts + 1
    local function record(method, params, callback)
        table.insert(sent, { method = method, params = vim.deepcopy(params) })
        if callback then
            callback(nil, "success")
        end
        return true
    end
    return {
        request = record,
        notify = record,
        terminate = function() end,
        is_closing = function()
            return false
        end,
    }
end

local errors = {}

local function file(name)
    local f = assert(io.open(vim.env[name], name == "MC_STEPS" and "r" or "w"))
    return f
end

local handlers = {}

function handlers.edit(step)
    vim.cmd("edit! " .. vim.fn.fnameescape(step.path))
end

function handlers.type()
    vim.api.nvim_feedkeys("ix", "ntx", false)
end

function handlers.move()
    vim.cmd("normal! l")
    vim.cmd("doautocmd CursorMoved")
end

function handlers.write()
    vim.cmd("silent write")
end

function handlers.reload()
    vim.cmd("edit!")
end

function handlers.wipe()
    vim.cmd("bwipeout!")
end

function handlers.unload()
    vim.cmd("bunload!")
end

function _G.mc_steps()
    if vim.v.errmsg ~= "" then
        table.insert(errors, vim.v.errmsg)
    end
    local at = { #sent }
    for _, step in ipairs(vim.json.decode(file("MC_STEPS"):read("*a"))) do
        local ok, message = pcall(handlers[step.what], step)
        if not ok then
            table.insert(errors, tostring(message))
        end
        vim.wait(0)
        table.insert(at, #sent)
    end
    local buffers = vim.empty_dict()
    for _, bufnr in ipairs(vim.api.nvim_list_bufs()) do
        local name = vim.api.nvim_buf_get_name(bufnr)
        if vim.api.nvim_buf_is_loaded(bufnr) and name ~= "" then
            buffers[name] = {
                lines = vim.api.nvim_buf_get_lines(bufnr, 0, -1, true),
                modified = vim.bo[bufnr].modified,
                eol = vim.bo[bufnr].eol,
                autoread = vim.bo[bufnr].autoread,
            }
        end
    end
    local answer = { sent = sent, at = at, starts = starts, errors = errors, buffers = buffers }
    local f = file("MC_ANSWER")
    f:write(vim.json.encode(answer))
    f:close()
    vim.cmd("qall!")
end
